// ===== theorems ====================================================================================

/// A verdict does not change when bytes are appended, and there is none on a proper prefix of an accepted message.
proof fn theorem_C21_Greeting(s: Seq<u8>, t: Seq<u8>)
    ensures
        dec_Greeting(s) is Ok || dec_Greeting(s) is Failed ==> dec_Greeting(s + t) == dec_Greeting(s),
        t.len() > 0 && (dec_Greeting(s + t) matches D::Ok(n, v) && n == (s + t).len()) ==> !(dec_Greeting(s) is Ok || dec_Greeting(s) is Failed),
{
    let p = p_response_greeting();
    g_p_response_greeting();
    fact_good(p, s, t);
    fact_good(p, s + t, t);
    fact_nolit(p, s);
}

/// A verdict does not change when bytes are appended, and there is none on a proper prefix of an accepted message.
proof fn theorem_C21_Command(s: Seq<u8>, t: Seq<u8>)
    ensures
        dec_Command(s) is Ok || dec_Command(s) is Failed ==> dec_Command(s + t) == dec_Command(s),
        t.len() > 0 && (dec_Command(s + t) matches D::Ok(n, v) && n == (s + t).len()) ==> !(dec_Command(s) is Ok || dec_Command(s) is Failed),
{
    let p = p_command_command();
    g_p_command_command();
    fact_good(p, s, t);
    fact_good(p, s + t, t);
}

/// A verdict does not change when bytes are appended, and there is none on a proper prefix of an accepted message.
proof fn theorem_C21_Response(s: Seq<u8>, t: Seq<u8>)
    ensures
        dec_Response(s) is Ok || dec_Response(s) is Failed ==> dec_Response(s + t) == dec_Response(s),
        t.len() > 0 && (dec_Response(s + t) matches D::Ok(n, v) && n == (s + t).len()) ==> !(dec_Response(s) is Ok || dec_Response(s) is Failed),
{
    let p = p_response_response();
    g_p_response_response();
    fact_good(p, s, t);
    fact_good(p, s + t, t);
}

/// A verdict does not change when bytes are appended, and there is none on a proper prefix of an accepted message.
proof fn theorem_C21_AuthenticateData(s: Seq<u8>, t: Seq<u8>)
    ensures
        dec_AuthenticateData(s) is Ok || dec_AuthenticateData(s) is Failed ==> dec_AuthenticateData(s + t) == dec_AuthenticateData(s),
        t.len() > 0 && (dec_AuthenticateData(s + t) matches D::Ok(n, v) && n == (s + t).len()) ==> !(dec_AuthenticateData(s) is Ok || dec_AuthenticateData(s) is Failed),
{
    let p = p_auth_authenticate_data();
    g_p_auth_authenticate_data();
    fact_good(p, s, t);
    fact_good(p, s + t, t);
    fact_nolit(p, s);
}

/// A verdict does not change when bytes are appended, and there is none on a proper prefix of an accepted message.
proof fn theorem_C21_IdleDone(s: Seq<u8>, t: Seq<u8>)
    ensures
        dec_IdleDone(s) is Ok || dec_IdleDone(s) is Failed ==> dec_IdleDone(s + t) == dec_IdleDone(s),
        t.len() > 0 && (dec_IdleDone(s + t) matches D::Ok(n, v) && n == (s + t).len()) ==> !(dec_IdleDone(s) is Ok || dec_IdleDone(s) is Failed),
{
    let p = p_idle_idle_done();
    g_p_idle_idle_done();
    fact_good(p, s, t);
    fact_good(p, s + t, t);
    fact_nolit(p, s);
}

/// The decoder returns, without panicking; an accepted message is not empty and lies within the input.
proof fn theorem_C22_Greeting(s: Seq<u8>)
    ensures
        !(dec_Greeting(s) is Panic),
        dec_Greeting(s) matches D::Ok(n, v) ==> 0 < n <= s.len(),
{
    let p = p_response_greeting();
    g_p_response_greeting();
    fact_good(p, s, s);
    fact_pos(p, s);
}

/// The decoder returns, without panicking; an accepted message is not empty and lies within the input.
proof fn theorem_C22_Command(s: Seq<u8>)
    ensures
        !(dec_Command(s) is Panic),
        dec_Command(s) matches D::Ok(n, v) ==> 0 < n <= s.len(),
{
    let p = p_command_command();
    g_p_command_command();
    fact_good(p, s, s);
    fact_pos(p, s);
    t_p_command_command(s, s);
}

/// The decoder returns, without panicking; an accepted message is not empty and lies within the input.
proof fn theorem_C22_Response(s: Seq<u8>)
    ensures
        !(dec_Response(s) is Panic),
        dec_Response(s) matches D::Ok(n, v) ==> 0 < n <= s.len(),
{
    let p = p_response_response();
    g_p_response_response();
    fact_good(p, s, s);
    fact_pos(p, s);
}

/// The decoder returns, without panicking; an accepted message is not empty and lies within the input.
proof fn theorem_C22_AuthenticateData(s: Seq<u8>)
    ensures
        !(dec_AuthenticateData(s) is Panic),
        dec_AuthenticateData(s) matches D::Ok(n, v) ==> 0 < n <= s.len(),
{
    let p = p_auth_authenticate_data();
    g_p_auth_authenticate_data();
    fact_good(p, s, s);
    fact_pos(p, s);
}

/// The decoder returns, without panicking; an accepted message is not empty and lies within the input.
proof fn theorem_C22_IdleDone(s: Seq<u8>)
    ensures
        !(dec_IdleDone(s) is Panic),
        dec_IdleDone(s) matches D::Ok(n, v) ==> 0 < n <= s.len(),
{
    let p = p_idle_idle_done();
    g_p_idle_idle_done();
    fact_good(p, s, s);
    fact_pos(p, s);
}

/// A literal is asked for only at the end of its announcement.
proof fn theorem_C24_only(s: Seq<u8>)
    ensures
        dec_Command(s) matches D::Lit(n, m, t) ==> m is Some && ends_announcing(s, n, m->0) && t is Some,
        dec_Response(s) matches D::Lit(n, m, t) ==> ends_announcing(s, n, true) || ends_announcing(s, n, false),
        !(dec_Greeting(s) is Lit),
        !(dec_AuthenticateData(s) is Lit),
        !(dec_IdleDone(s) is Lit),
{
    g_p_command_command();
    g_p_response_response();
    t_p_command_command(s, s);
    fact_good(p_command_command(), s, s);
    fact_good(p_response_response(), s, s);
    match p_response_response()(s) { R::Lit(n, m, g) => { assert(m == true || m == false); } _ => {} }
}

/// Of an accepted command: directly after each announcement of a literal, the decoder reports that literal, with its
/// length, its mode and the tag of the command; everywhere else before the end it waits for more.
proof fn theorem_C24(s: Seq<u8>, t: Seq<u8>)
    requires
        t.len() > 0,
        dec_Command(s + t) matches D::Ok(n, v) && n == (s + t).len(),
    ensures
        match scan(St::Line(seq![]), s) {
            St::Ann(a) => dec_Command(s) == D::Lit(a.length as nat, Some(a.mode is NonSync), Some(vf(0, under(dec_Command(s + t)->Ok_1)))),
            _ => dec_Command(s) is Inc,
        },
{
    let p = p_command_command();
    theorem_C21_Command(s, t);
    theorem_C22_Command(s);
    g_p_command_command();
    s_p_command_command();
    fact_dn(p, s);
    fact_good(p, s, t);
    t_p_command_command(s, t);
}

/// Command codec and fragmentizer agree on where a command ends (with theorem_frame of proofs/frag.rs), and what the
/// fragmentizer cuts out decodes to the same command.
proof fn theorem_C25(s: Seq<u8>)
    ensures
        dec_Command(s) matches D::Ok(n, v) ==> n <= s.len() && scan(St::Line(seq![]), s.take(n as int)) is Done && dec_Command(s.take(n as int)) == D::Ok(n, v),
        dec_Command(s) is Inc ==> busy(scan(St::Line(seq![]), s)),
        dec_Command(s) is Lit ==> scan(St::Line(seq![]), s) is Ann,
{
    let p = p_command_command();
    g_p_command_command();
    s_p_command_command();
    t_p_command_command(s, s);
    fact_dn(p, s);
    fact_good(p, s, s);
    match dec_Command(s) {
        D::Ok(n, v) => {
            let m = s.take(n as int);
            fact_dn(p, m);
            t_p_command_command(m, s.skip(n as int));
            fact_good(p, m, s.skip(n as int));
            assert(m + s.skip(n as int) =~= s);
        }
        _ => {}
    }
}
