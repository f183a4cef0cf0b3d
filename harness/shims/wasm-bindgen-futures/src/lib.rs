//! Present for the manifest only: p4analyzer's glue returns futures and starts none.
