// ===== theorems ====================================================================================

spec fn option_alike(a: Option<V>, b: Option<V>) -> bool {
    match a { Some(v) => b matches Some(w) && alike(v, w), None => b is None }
}
spec fn decoded_alike(a: D, b: D) -> bool {
    match a {
        D::Ok(n, v) => match b { D::Ok(m, w) => n == m && alike(v, w), _ => false },
        D::Lit(n, m, g) => match b { D::Lit(i, j, h) => n == i && m == j && option_alike(g, h), _ => false },
        D::Inc => b is Inc,
        D::Failed => b is Failed,
        D::Panic => b is Panic,
    }
}
/// Two inputs that differ only in the case of letters: the same verdict, the same number of bytes consumed, messages
/// built in the same way from texts that differ only in the case of letters.
proof fn theorem_C09_Greeting(s: Seq<u8>, t: Seq<u8>)
    requires contents_alike(), nc(s, t),
    ensures decoded_alike(dec_Greeting(s), dec_Greeting(t)),
{
    c_p_response_greeting();
    fact_ci(p_response_greeting(), s, t);
}
/// Two inputs that differ only in the case of letters: the same verdict, the same number of bytes consumed, messages
/// built in the same way from texts that differ only in the case of letters.
proof fn theorem_C09_Command(s: Seq<u8>, t: Seq<u8>)
    requires contents_alike(), nc(s, t),
    ensures decoded_alike(dec_Command(s), dec_Command(t)),
{
    c_p_command_command();
    fact_ci(p_command_command(), s, t);
}
/// Two inputs that differ only in the case of letters: the same verdict, the same number of bytes consumed, messages
/// built in the same way from texts that differ only in the case of letters.
proof fn theorem_C09_Response(s: Seq<u8>, t: Seq<u8>)
    requires contents_alike(), nc(s, t),
    ensures decoded_alike(dec_Response(s), dec_Response(t)),
{
    c_p_response_response();
    fact_ci(p_response_response(), s, t);
}
/// Two inputs that differ only in the case of letters: the same verdict, the same number of bytes consumed, messages
/// built in the same way from texts that differ only in the case of letters.
proof fn theorem_C09_AuthenticateData(s: Seq<u8>, t: Seq<u8>)
    requires contents_alike(), nc(s, t),
    ensures decoded_alike(dec_AuthenticateData(s), dec_AuthenticateData(t)),
{
    c_p_auth_authenticate_data();
    fact_ci(p_auth_authenticate_data(), s, t);
}
/// Two inputs that differ only in the case of letters: the same verdict, the same number of bytes consumed, messages
/// built in the same way from texts that differ only in the case of letters.
proof fn theorem_C09_IdleDone(s: Seq<u8>, t: Seq<u8>)
    requires contents_alike(), nc(s, t),
    ensures decoded_alike(dec_IdleDone(s), dec_IdleDone(t)),
{
    c_p_idle_idle_done();
    fact_ci(p_idle_idle_done(), s, t);
}
