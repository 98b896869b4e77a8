//@file crates/parsa_python_cst/src/strings.rs
//@struct UnpackedLiteral
//@fn parse_hex
//@rw $x.get(..$n)?.iter().enumerate() ==> vx_enum(vx_get_to($x, $n)?)
//@rw $x.is_ascii_digit() ==> vx_is_digit(*$x)
//@rw ($a..=$z).contains($x) ==> ($a <= *$x && *$x <= $z)
//@rw char::from_u32($x) ==> vx_from_u32($x)
    requires count == 2 || count == 4 || count == 8,
    ensures
        r is Some <==> hexval(code@, 0, count as int) is Some && is_char(hexval(code@, 0, count as int)->0),
        r is Some ==> ord(r->0) == hexval(code@, 0, count as int)->0,
//@loop 0
    invariant
        count == 2 || count == 4 || count == 8, count <= code@.len(), it__0.v@ == code@.subrange(0, count as int), it__0.k <= count,
        hexval(code@, 0, it__0.k as int) is Some, number == hexval(code@, 0, it__0.k as int)->0 * p16(count - it__0.k),
        hexval(code@, 0, it__0.k as int)->0 < p16(it__0.k as int),
    ensures it__0.k == count,
    decreases count - it__0.k,
//@loopbegin 0
    let ghost k__ = it__0.k as int;
    proof { if k__ < count { hex_none(code@, 0, k__ + 1, count as int); } }
//@before number +=
    proof { hex_step(code@, i, count, digit, number); }
//@end

//@fn parse_python_octal
//@rw $x.iter().take($n) ==> vx_take($x, $n)
//@rw char::from_u32($x) ==> vx_from_u32($x)
//@rw $o.and_then(|$c| $e) ==> (match $o { Some($c) => $e, None => None })
//@rw $c.to_digit(8) ==> vx_octal_digit($c)
//@rw ($c).then(|| $e) ==> (if $c { Some($e) } else { None })
    ensures
        r is Some <==> octlen(x@, 0) > 0,
        r is Some ==> (r->0).0 == octlen(x@, 0) && ord((r->0).1) == octval(x@, 0, octlen(x@, 0)),
//@loop 0
    invariant_except_break used_bytes == it__0.k,
    invariant
        it__0.k <= it__0.v@.len(), it__0.v@.len() == (if x@.len() < 3 { x@.len() as int } else { 3 }), it__0.v@ == x@.subrange(0, it__0.v@.len() as int),
        used_bytes <= 3, forall|k: int| 0 <= k < used_bytes ==> #[trigger] octd(x@, k),
        result == octval(x@, 0, used_bytes as int), used_bytes == 0 ==> result == 0, used_bytes == 1 ==> result < 8, used_bytes == 2 ==> result < 64, used_bytes == 3 ==> result < 512,
    ensures
        used_bytes == octlen(x@, 0), result == octval(x@, 0, used_bytes as int), result < 512,
    decreases it__0.v@.len() - it__0.k,
//@loopbegin 0
    proof { oct_step(result); assert(octd(x@, 0) || !octd(x@, 0)); assert(octd(x@, 1) || !octd(x@, 1)); assert(octd(x@, 2) || !octd(x@, 2)); }
//@end

//@fn unpack_string_or_bytes_content
//@rw $c.as_bytes().iter().enumerate() ==> vx_enum(vx_bytes($c))
//@rw byte_iterator.len() ==> byte_iterator.vx_left()
//@rw byte_iterator.next() ==> byte_iterator.vx_next()
//@rw &code[$a..code.len() - $q] ==> vx_slice(code, $a, vx_len(code) - $q)
    requires literal(bts(code)),
    ensures
        bts(r.inner) == content(bts(code)), r.inner_start_offset == qpos(bts(code)) + qlen(bts(code)),
        r.had_raw_modifier <==> is_raw(bts(code)),
//@begin
    let ghost b__ = bts(code);
    let ghost p__ = qpos(b__);
    proof { utf8(code); utf8_follow(code); }
//@loop 0
    invariant_except_break
        byte_iterator.v@ == b__, byte_iterator.k <= p__, quote_len == 1,
        had_raw_modifier <==> raw_upto(b__, byte_iterator.k as int),
    invariant
        b__ == bts(code), p__ == qpos(b__), literal(b__), quote_at(b__, p__),
    ensures
        inner_start_offset == p__ + qlen(b__), quote_len == qlen(b__), had_raw_modifier <==> is_raw(b__),
    decreases p__ + 1 - byte_iterator.k,
//@before UnpackedLiteral {
    proof {
        let a = p__ + qlen(b__);
        assert(b__[a - 1] == b__[p__]);
        assert(b__[a - 1] < 0x80);
        assert(b__[b__.len() - qlen(b__)] == b__[p__]);
    }
//@end

