verus! {
// ---------- C06: operators ----------
pub open spec fn inverse(op: CompOp) -> CompOp {
    match op { CompOp::Eq => CompOp::Ne, CompOp::Ne => CompOp::Eq, CompOp::Lt => CompOp::Ge, CompOp::Ge => CompOp::Lt, CompOp::Le => CompOp::Gt, CompOp::Gt => CompOp::Le,
        CompOp::StartsWith => CompOp::NotStartsWith, CompOp::NotStartsWith => CompOp::StartsWith, CompOp::Compatible => CompOp::Incompatible, CompOp::Incompatible => CompOp::Compatible }
}
pub open spec fn flipped(op: CompOp) -> CompOp { match op { CompOp::Lt => CompOp::Gt, CompOp::Gt => CompOp::Lt, CompOp::Le => CompOp::Ge, CompOp::Ge => CompOp::Le, _ => op } }
pub open spec fn opposed(op: CompOp) -> CompOp {
    match op { CompOp::Lt => CompOp::Gt, CompOp::Gt => CompOp::Lt, CompOp::Le => CompOp::Ge, CompOp::Ge => CompOp::Le, _ => inverse(op) }
}
/// C10: inverting twice, opposing twice, flipping twice change nothing
pub proof fn thm_c10_involutions(op: CompOp) ensures inverse(inverse(op)) == op, flipped(flipped(op)) == op, opposed(opposed(op)) == op { }
}
