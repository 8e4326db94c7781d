//! The implementation under test, behind plain data.
use crate::model::lex::{self, T};
use crate::model::sem::SE;
use crate::model::tdg::Class;
use hddl_analyzer::{HDDLAnalyzer, LexicalErrorType, ParsingError, SemanticErrorType as S, WarningType};

#[derive(Clone, Debug, PartialEq)]
pub enum Out<X> {
    Ok(X),
    Lex { kind: &'static str, lexeme: String, line: u32, msg: String },
    Syn { expected: String, found: String, line: u32, msg: String },
    Sem(SE, String),
}
impl<X> Out<X> {
    pub fn msg(&self) -> &str {
        match self {
            Out::Ok(_) => "",
            Out::Lex { msg, .. } | Out::Syn { msg, .. } | Out::Sem(_, msg) => msg,
        }
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, Out::Ok(_))
    }
    pub fn label(&self) -> String {
        match self {
            Out::Ok(_) => "accepted".into(),
            Out::Lex { kind, .. } => format!("lexical:{}", kind),
            Out::Syn { .. } => "syntax".into(),
            Out::Sem(e, _) => format!("semantic:{}", e.kind),
        }
    }
    pub fn without_ok(self) -> Out<()> {
        match self {
            Out::Ok(_) => Out::Ok(()),
            Out::Lex { kind, lexeme, line, msg } => Out::Lex { kind, lexeme, line, msg },
            Out::Syn { expected, found, line, msg } => Out::Syn { expected, found, line, msg },
            Out::Sem(e, m) => Out::Sem(e, m),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Warn {
    pub symbol: String,
    pub line: u32,
    pub msg: String,
}

pub fn convert<X>(e: ParsingError) -> Out<X> {
    let msg = e.to_string();
    match e {
        ParsingError::Lexiacal(e) => Out::Lex {
            kind: match e.error_type {
                LexicalErrorType::InvalidIdentifier => "identifier",
                LexicalErrorType::InvalidRealNumber => "real",
                LexicalErrorType::InvalidKeyword => "keyword",
            },
            lexeme: e.lexeme,
            line: e.position.line,
            msg,
        },
        ParsingError::Syntactic(e) => Out::Syn { expected: e.expected, found: e.found, line: e.position.line, msg },
        ParsingError::Semantic(e) => Out::Sem(convert_sem(e), msg),
    }
}

fn convert_sem(e: S) -> SE {
    macro_rules! dup { ($k:expr, $d:expr) => { SE { kind: $k, sym: $d.symbol, line: $d.first_pos.line, line2: $d.second_pos.line, ..Default::default() } } }
    macro_rules! undef { ($k:expr, $d:expr) => { SE { kind: $k, sym: $d.symbol, line: $d.position.line, ..Default::default() } } }
    macro_rules! arity { ($k:expr, $d:expr) => { SE { kind: $k, sym: $d.symbol, line: $d.position.line, exp: $d.expected_arity.to_string(), found: $d.found_arity.to_string(), ..Default::default() } } }
    macro_rules! typ { ($k:expr, $d:expr) => { SE { kind: $k, sym: $d.var_name, line: $d.position.line, exp: $d.expected.map(|t| format!("'{}", t)).unwrap_or_default(), found: $d.found.map(|t| format!("'{}", t)).unwrap_or_default(), ..Default::default() } } }
    match e {
        S::DuplicateObjectDeclaration(d) => dup!("DupObject", d),
        S::DuplicateRequirementDeclaration(r) => SE { kind: "DupRequirement", sym: r.to_string(), ..Default::default() },
        S::DuplicatePredicateDeclaration(d) => dup!("DupPredicate", d),
        S::DuplicateActionDeclaration(d) => dup!("DupAction", d),
        S::DuplicateCompoundTaskDeclaration(d) => dup!("DupTask", d),
        S::DuplicateMethodDeclaration(d) => dup!("DupMethod", d),
        S::DuplicateParameterDeclaration(d) => dup!("DupParameter", d),
        S::UndefinedPredicate(u) => undef!("UndefPredicate", u),
        S::UndefinedType(u) => undef!("UndefType", u),
        S::UndefinedSubtask(u) => undef!("UndefSubtask", u),
        S::UndefinedTask(u) => undef!("UndefTask", u),
        S::UndefinedParameter(u) => undef!("UndefParameter", u),
        S::UndefinedObject(u) => undef!("UndefObject", u),
        S::InconsistentPredicateArity(a) => arity!("PredArity", a),
        S::InconsistentTaskArity(a) => arity!("TaskArity", a),
        S::InconsistentPredicateArgType(t) => typ!("PredType", t),
        S::InconsistentTaskArgType(t) => typ!("TaskType", t),
        S::CyclicTypeDeclaration => SE { kind: "CyclicType", ..Default::default() },
        S::CyclicOrderingDeclaration(p) => SE { kind: "CyclicOrder", line: p.line, ..Default::default() },
    }
}

pub fn verify(d: &Vec<u8>, p: Option<&Vec<u8>>) -> Out<Vec<Warn>> {
    match HDDLAnalyzer::verify(d, p) {
        Ok(ws) => Out::Ok(
            ws.into_iter()
                .map(|w| {
                    let msg = w.to_string();
                    match w {
                        WarningType::NoPrimitiveRefinement(i) => Warn { symbol: i.symbol, line: i.position.line, msg },
                        _ => Warn { symbol: "?".into(), line: 0, msg },
                    }
                })
                .collect(),
        ),
        Err(e) => convert(e),
    }
}
pub fn to_json(d: &Vec<u8>, p: Option<&Vec<u8>>) -> Out<String> {
    match HDDLAnalyzer::to_json(d, p) {
        Ok(s) => Out::Ok(s),
        Err(e) => convert(e),
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Meta {
    pub class: Class,
    pub tasks: Vec<String>,
    pub methods: Vec<String>,
    pub nullables: Vec<String>,
    pub counts: (u32, u32, u32),
    pub text: String,
}
pub fn metadata(d: &Vec<u8>) -> Out<Meta> {
    metadata2(d, None)
}
pub fn metadata2(d: &Vec<u8>, p: Option<&Vec<u8>>) -> Out<Meta> {
    match HDDLAnalyzer::get_metadata(d, p) {
        Ok(m) => {
            let shown = m.recursion.to_string();
            let (head, rest) = shown.split_once('\n').unwrap_or((&shown, ""));
            let class = match head {
                "Non-recursive" => Class::NonRecursive,
                "Recursive" => Class::Recursive,
                "Empty recursion" => Class::Empty,
                "Growing empty prefix recursion" => Class::GrowingEmptyPrefix,
                "Grow and shrink recursion" => Class::GrowAndShrink,
                other => panic!("unknown recursion class shown: {:?}", other),
            };
            let (mut tasks, mut methods) = (vec![], vec![]);
            let rest = rest.trim_start_matches("\tCycle: ");
            if !rest.is_empty() {
                for piece in rest.split("->") {
                    match piece.split_once("]-(") {
                        Some((t, mm)) => {
                            tasks.push(t.trim_start_matches('[').to_string());
                            methods.push(mm.trim_end_matches(')').to_string());
                        }
                        None => tasks.push(piece.trim_start_matches('[').trim_end_matches(']').to_string()),
                    }
                }
            }
            Out::Ok(Meta { class, tasks, methods, nullables: m.nullables.clone(), counts: (m.n_actions, m.n_tasks, m.n_methods), text: m.to_string() })
        }
        Err(e) => convert(e),
    }
}

/// Does the reported lexical or syntax error name token `t` at its line?
pub fn names_token<X>(out: &Out<X>, tok: &lex::Tok) -> Result<(), String> {
    match (&tok.t, out) {
        (T::Bad { kind, lexeme }, Out::Lex { kind: k, lexeme: l, line, msg }) => {
            if k != kind || l != lexeme || *line != tok.line {
                return Err(format!("lexical error should be {} '{}' at line {}, reported {} '{}' at line {}", kind, lexeme, tok.line, k, l, line));
            }
            if !msg.contains(&format!("line {}", tok.line)) || !msg.contains(lexeme.as_str()) {
                return Err(format!("message does not name line {} and '{}': {}", tok.line, lexeme, msg));
            }
            Ok(())
        }
        (T::Bad { lexeme, .. }, _) => Err(format!("expected a lexical error for '{}' at line {}, got {}", lexeme, tok.line, out.label())),
        (t, Out::Syn { found, line, msg, .. }) => {
            let want = lex::display(t);
            if *found != want || *line != tok.line {
                return Err(format!("syntax error should name '{}' at line {}, reported '{}' at line {}", want, tok.line, found, line));
            }
            if !msg.contains(&format!("line {}", tok.line)) || !msg.contains(want.as_str()) {
                return Err(format!("message does not name line {} and '{}': {}", tok.line, want, msg));
            }
            Ok(())
        }
        (t, _) => Err(format!("expected a syntax error at '{}' in line {}, got {} {}", lex::display(t), tok.line, out.label(), out.msg())),
    }
}
