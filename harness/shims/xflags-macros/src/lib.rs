//! Stand-in for the `xflags!` macro: the parsing half (the types are in the file the macro names).
use proc_macro::{Delimiter, TokenStream, TokenTree};

struct Flag {
	arity: String,
	names: Vec<String>,
	ty: Option<String>,
}

impl Flag {
	fn long(&self) -> &str { self.names.last().unwrap() }
	fn field(&self) -> String { self.long().trim_start_matches('-').replace('-', "_") }
	fn var(&self, path: &[usize]) -> String { format!("f_{}_{}", path.iter().map(|i| i.to_string()).collect::<Vec<_>>().join("_"), self.field()) }
}

#[derive(Default)]
struct Cmd {
	name: String,
	default: bool,
	doc: String,
	flags: Vec<Flag>,
	subs: Vec<Cmd>,
}

struct Tokens(std::iter::Peekable<proc_macro::token_stream::IntoIter>);

impl Tokens {
	fn peek(&mut self) -> String { self.0.peek().map_or(String::new(), |t| t.to_string()) }
	fn next(&mut self) -> String { self.0.next().map_or(String::new(), |t| t.to_string()) }
	fn eat(&mut self, s: &str) -> bool {
		let yes = self.peek() == s;
		if yes {
			self.next();
		}
		yes
	}
	fn doc(&mut self) -> String {
		let mut doc = String::new();
		while self.eat("#") {
			doc += &self.next();
			doc.push('\n');
		}
		doc
	}
	/// `a-b`, `-v`, `--a-b`
	fn name(&mut self) -> String {
		let mut s = String::new();
		while self.eat("-") {
			s.push('-');
		}
		s += &self.next();
		while self.eat("-") {
			s.push('-');
			s += &self.next();
		}
		s
	}
	fn cmd(&mut self, default: bool, doc: String) -> Cmd {
		let mut c = Cmd { name: self.name(), default, doc, ..Cmd::default() };
		let Some(TokenTree::Group(g)) = self.0.next() else { panic!("xflags: expected {{ after cmd {}", c.name) };
		assert!(g.delimiter() == Delimiter::Brace);
		let mut t = Tokens(g.stream().into_iter().peekable());
		while t.0.peek().is_some() {
			let doc = t.doc();
			match t.next().as_str() {
				"default" => {
					assert!(t.next() == "cmd");
					let sub = t.cmd(true, doc);
					c.subs.push(sub);
				}
				"cmd" => {
					let sub = t.cmd(false, doc);
					c.subs.push(sub);
				}
				arity @ ("optional" | "required" | "repeated") => {
					let mut names = vec![t.name()];
					while t.eat(",") {
						names.push(t.name());
					}
					assert!(names[0].starts_with('-'), "stand-in for xflags: no positional arguments");
					let mut ty = None;
					if matches!(t.0.peek(), Some(TokenTree::Ident(_))) && !["optional", "required", "repeated", "cmd", "default"].contains(&t.peek().as_str()) {
						t.next();
						assert!(t.eat(":"));
						let mut s = String::new();
						let mut depth = 0;
						loop {
							let p = t.peek();
							if p.is_empty() || depth == 0 && !s.is_empty() && !s.ends_with(':') && p != ":" && p != "<" {
								break;
							}
							depth += (p == "<") as i32 - (p == ">") as i32;
							s += &t.next();
						}
						ty = Some(s);
					}
					c.flags.push(Flag { arity: arity.into(), names, ty });
				}
				other => panic!("stand-in for xflags: unexpected {other}"),
			}
		}
		c
	}
}

fn camel(s: &str) -> String {
	s.split('-').map(|w| w[..1].to_uppercase() + &w[1..]).collect()
}

struct Gen {
	states: usize,
	vars: String,
	flag_arms: String,
	arg_arms: String,
	defaults: String,
	help: String,
}

impl Gen {
	/// Returns the states in which the command is chosen, and the expression of its value.
	fn cmd(&mut self, c: &Cmd, path: &[usize], ty: &str) -> (Vec<usize>, String) {
		let state = self.states;
		self.states += 1;
		let mut all = vec![state];
		let mut arms = String::new();
		for (i, sub) in c.subs.iter().enumerate() {
			let sub_path = [path, &[i]].concat();
			let sub_ty = if path.is_empty() { camel(&sub.name) } else { format!("{ty}{}", camel(&sub.name)) };
			let first = self.states;
			self.arg_arms += &format!("({state}, {:?}) => state_ = {first},\n", sub.name);
			let (states, value) = self.cmd(sub, &sub_path, &sub_ty);
			if sub.default {
				self.defaults += &format!("if state_ == {state} {{ state_ = {first}; }}\n");
				// the default command's flags are there without its name
				self.flag_arms = self.flag_arms.replace(&format!("/*{first}*/"), &format!("| {state} /*{first}*/"));
			}
			let pattern = states.iter().map(|s| s.to_string()).collect::<Vec<_>>().join(" | ");
			arms += &format!("{pattern} => {ty}Cmd::{}({value}),\n", camel(&sub.name));
			all.extend(states);
		}
		let mut fields = String::new();
		for f in &c.flags {
			let var = f.var(path);
			let kind = f.ty.as_deref().unwrap_or("()");
			self.vars += &format!("let mut {var}: Vec<{kind}> = Vec::new();\n");
			let names = f.names.iter().map(|n| format!("{n:?}")).collect::<Vec<_>>().join(" | ");
			let states = all.iter().map(|s| s.to_string()).collect::<Vec<_>>().join(" | ");
			let push = match f.ty.as_deref() {
				None => "()".to_string(),
				Some("PathBuf" | "OsString") => "p_.next_value(&flag_)?.into()".into(),
				Some(t) => format!("p_.next_value_from_str::<{t}>(&flag_)?"),
			};
			self.flag_arms += &format!("({states} /*{state}*/, {names}) => {var}.push({push}),\n");
			let value = match (f.arity.as_str(), f.ty.is_some()) {
				("optional", true) => format!("p_.optional({:?}, {var})?", f.long()),
				("optional", false) => format!("p_.optional({:?}, {var})?.is_some()", f.long()),
				("required", true) => format!("p_.required({:?}, {var})?", f.long()),
				("required", false) => format!("p_.required({:?}, {var})?;", f.long()),
				("repeated", true) => var.clone(),
				_ => format!("{var}.len() as u32"),
			};
			fields += &format!("{}: {value},\n", f.field());
			self.help += &format!("  {}\n", f.names.join(", "));
		}
		if !c.subs.is_empty() {
			fields += &format!("subcommand: match state_ {{ {arms} _ => return Err(p_.subcommand_required()) }},\n");
		}
		self.help += &format!("{}\n{}\n", c.name, c.doc);
		(all, format!("{ty} {{ {fields} }}"))
	}
}

#[proc_macro]
pub fn xflags(input: TokenStream) -> TokenStream {
	let mut t = Tokens(input.into_iter().peekable());
	assert!(t.eat("src"), "stand-in for xflags: `src` is needed");
	t.next();
	let doc = t.doc();
	assert!(t.eat("cmd"));
	let c = t.cmd(false, doc);
	let ty = camel(&c.name);
	let mut g = Gen { states: 0, vars: String::new(), flag_arms: String::new(), arg_arms: String::new(), defaults: String::new(), help: String::new() };
	let (_, value) = g.cmd(&c, &[], &ty);
	let code = format!(
		r#"impl {ty} {{
	const HELP_: &'static str = {help:?};
	fn from_env_or_exit_() -> Self {{ Self::from_env_().unwrap_or_else(|err| err.exit()) }}
	fn from_env_() -> xflags::Result<Self> {{ let mut p = xflags::rt::Parser::new_from_env(); Self::parse_(&mut p) }}
	fn from_vec_(args: Vec<std::ffi::OsString>) -> xflags::Result<Self> {{ let mut p = xflags::rt::Parser::new(args); Self::parse_(&mut p) }}
	#[allow(unused_mut, unused_assignments)]
	fn parse_(p_: &mut xflags::rt::Parser) -> xflags::Result<Self> {{
		{vars}
		let mut state_ = 0usize;
		while let Some(arg_) = p_.pop_flag() {{
			match arg_ {{
				Ok(flag_) => match (state_, flag_.as_str()) {{
					{flag_arms}
					(_, "--help" | "-h") => return Err(p_.help(Self::HELP_)),
					_ => return Err(p_.unexpected_flag(&flag_)),
				}},
				Err(arg_) => match (state_, arg_.to_str().unwrap_or("")) {{
					{arg_arms}
					_ => return Err(p_.unexpected_arg(arg_)),
				}},
			}}
		}}
		{defaults}
		Ok({value})
	}}
}}"#,
		help = g.help, vars = g.vars, flag_arms = g.flag_arms, arg_arms = g.arg_arms, defaults = g.defaults
	);
	code.parse().expect("stand-in for xflags: bad code")
}
