// What template cache calls the order of the values, where values are real numbers.
pub open spec fn rank(a: F) -> real { a.v() }
pub open spec fn nan(a: F) -> bool { false }
