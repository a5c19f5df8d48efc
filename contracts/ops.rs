verus! {
// ---------- C10: operators, their signs and names ----------
pub open spec fn sign_of(c: CompOp) -> Seq<char> {
    match c { CompOp::Eq => "=="@, CompOp::Ne => "!="@, CompOp::Lt => "<"@, CompOp::Le => "<="@, CompOp::Ge => ">="@, CompOp::Gt => ">"@,
        CompOp::StartsWith => "="@, CompOp::NotStartsWith => "!=startswith"@, CompOp::Compatible => "~="@, CompOp::Incompatible => "!~="@ }
}
pub open spec fn name_of(c: CompOp) -> Seq<char> {
    match c { CompOp::Eq => "eq"@, CompOp::Ne => "ne"@, CompOp::Lt => "lt"@, CompOp::Le => "le"@, CompOp::Ge => "ge"@, CompOp::Gt => "gt"@,
        CompOp::StartsWith => "startswith"@, CompOp::NotStartsWith => "notstartswith"@, CompOp::Compatible => "compatible"@, CompOp::Incompatible => "incompatible"@ }
}
pub open spec fn sign_fn() -> spec_fn(CompOp) -> Seq<char> { |c: CompOp| sign_of(c) }
pub open spec fn name_fn() -> spec_fn(CompOp) -> Seq<char> { |c: CompOp| name_of(c) }
/// a lookup finds `c` in exactly the texts that are its sign / name; no text is the sign of two operators (thm_c10_distinct)
pub open spec fn found(t: Seq<char>, r: Result<CompOp, ()>, name: spec_fn(CompOp) -> Seq<char>) -> bool {
    match r { Ok(c) => t == name(c), Err(_) => forall|c: CompOp| t != #[trigger] name(c) }
}
pub open spec fn direction(c: CompOp) -> int { match c { CompOp::Lt | CompOp::Le => -1, CompOp::Gt | CompOp::Ge => 1, _ => 0 } }
pub proof fn lem_sign_literals() ensures forall|c: CompOp| #[trigger] sign_of(c).len() == sign_len(c) {
    reveal_strlit("=="); reveal_strlit("!="); reveal_strlit("<"); reveal_strlit("<="); reveal_strlit(">="); reveal_strlit(">"); reveal_strlit("="); reveal_strlit("!=startswith"); reveal_strlit("~="); reveal_strlit("!~=");
}
pub open spec fn sign_len(c: CompOp) -> int { match c { CompOp::Lt | CompOp::Gt | CompOp::StartsWith => 1, CompOp::NotStartsWith => 12, CompOp::Incompatible => 3, _ => 2 } }
}
