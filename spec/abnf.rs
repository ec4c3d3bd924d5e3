// RFC 5646 section 2.1 (and /repo/src/grammar.abnf), transcribed production by
// production.  This is the specification of "well-formed"; nothing in it is
// derived from the automata in /repo/src/grammar.rs.
pub mod abnf {
use vstd::prelude::*;
use crate::re::*;
verus! {

/// the literal "x"
pub open spec fn lit_x() -> Re { cls(K::Lit(0x78)) }
pub open spec fn dash() -> Re { cls(K::Lit(0x2d)) }
/// 1*( r )
pub open spec fn plus(r: Re) -> Re { cat(r, star(r)) }
/// "-" r
pub open spec fn dashed(r: Re) -> Re { cat(dash(), r) }

// primary = 2*8ALPHA      (first subtag: ISO 639 code, reserved, or registered)
pub open spec fn primary() -> Re { rep(K::Alpha, 2, 8) }
// extlang-tag = 3ALPHA
pub open spec fn extlang_tag() -> Re { rep(K::Alpha, 3, 3) }
// extlang = extlang-tag *2("-" extlang-tag)
pub open spec fn extlang() -> Re { cat(extlang_tag(), opt(cat(dashed(extlang_tag()), opt(dashed(extlang_tag()))))) }
// language = 2*3ALPHA ["-" extlang] / 4ALPHA / 5*8ALPHA
pub open spec fn language() -> Re {
    alt(cat(rep(K::Alpha, 2, 3), opt(dashed(extlang()))), alt(rep(K::Alpha, 4, 4), rep(K::Alpha, 5, 8)))
}
// script = 4ALPHA
pub open spec fn script() -> Re { rep(K::Alpha, 4, 4) }
// region = 2ALPHA / 3DIGIT
pub open spec fn region() -> Re { alt(rep(K::Alpha, 2, 2), rep(K::Digit, 3, 3)) }
// variant = 5*8alphanum / (DIGIT 3alphanum)
pub open spec fn variant() -> Re { alt(rep(K::Alnum, 5, 8), cat(cls(K::Digit), rep(K::Alnum, 3, 3))) }
// variants = [ variant *("-" variant) ]
pub open spec fn variants() -> Re { opt(cat(variant(), star(dashed(variant())))) }
// extension-subtag = 2*8alphanum
pub open spec fn extension_subtag() -> Re { rep(K::Alnum, 2, 8) }
// extension = singleton 1*("-" extension-subtag)
pub open spec fn extension() -> Re { cat(cls(K::Sing), plus(dashed(extension_subtag()))) }
// extensions = [ extension *("-" extension) ]
pub open spec fn extensions() -> Re { opt(cat(extension(), star(dashed(extension())))) }
// privateuse-subtag = 1*8alphanum
pub open spec fn privateuse_subtag() -> Re { rep(K::Alnum, 1, 8) }
// privateuse = "x" 1*("-" privateuse-subtag)
pub open spec fn privateuse() -> Re { cat(lit_x(), plus(dashed(privateuse_subtag()))) }
// langtag = language ["-" script] ["-" region] *("-" variant) *("-" extension) ["-" privateuse]
pub open spec fn langtag() -> Re {
    cat(language(), cat(opt(dashed(script())), cat(opt(dashed(region())),
        cat(star(dashed(variant())), cat(star(dashed(extension())), opt(dashed(privateuse())))))))
}

/// The 26 grandfathered tags, in the order of the RFC.
pub open spec fn grandfathered_words() -> Seq<Seq<u8>> {
    seq![
        /* en-GB-oed */ seq![0x65u8, 0x6eu8, 0x2du8, 0x47u8, 0x42u8, 0x2du8, 0x6fu8, 0x65u8, 0x64u8],
        /* i-ami */ seq![0x69u8, 0x2du8, 0x61u8, 0x6du8, 0x69u8],
        /* i-bnn */ seq![0x69u8, 0x2du8, 0x62u8, 0x6eu8, 0x6eu8],
        /* i-default */ seq![0x69u8, 0x2du8, 0x64u8, 0x65u8, 0x66u8, 0x61u8, 0x75u8, 0x6cu8, 0x74u8],
        /* i-enochian */ seq![0x69u8, 0x2du8, 0x65u8, 0x6eu8, 0x6fu8, 0x63u8, 0x68u8, 0x69u8, 0x61u8, 0x6eu8],
        /* i-hak */ seq![0x69u8, 0x2du8, 0x68u8, 0x61u8, 0x6bu8],
        /* i-klingon */ seq![0x69u8, 0x2du8, 0x6bu8, 0x6cu8, 0x69u8, 0x6eu8, 0x67u8, 0x6fu8, 0x6eu8],
        /* i-lux */ seq![0x69u8, 0x2du8, 0x6cu8, 0x75u8, 0x78u8],
        /* i-mingo */ seq![0x69u8, 0x2du8, 0x6du8, 0x69u8, 0x6eu8, 0x67u8, 0x6fu8],
        /* i-navajo */ seq![0x69u8, 0x2du8, 0x6eu8, 0x61u8, 0x76u8, 0x61u8, 0x6au8, 0x6fu8],
        /* i-pwn */ seq![0x69u8, 0x2du8, 0x70u8, 0x77u8, 0x6eu8],
        /* i-tao */ seq![0x69u8, 0x2du8, 0x74u8, 0x61u8, 0x6fu8],
        /* i-tay */ seq![0x69u8, 0x2du8, 0x74u8, 0x61u8, 0x79u8],
        /* i-tsu */ seq![0x69u8, 0x2du8, 0x74u8, 0x73u8, 0x75u8],
        /* sgn-BE-FR */ seq![0x73u8, 0x67u8, 0x6eu8, 0x2du8, 0x42u8, 0x45u8, 0x2du8, 0x46u8, 0x52u8],
        /* sgn-BE-NL */ seq![0x73u8, 0x67u8, 0x6eu8, 0x2du8, 0x42u8, 0x45u8, 0x2du8, 0x4eu8, 0x4cu8],
        /* sgn-CH-DE */ seq![0x73u8, 0x67u8, 0x6eu8, 0x2du8, 0x43u8, 0x48u8, 0x2du8, 0x44u8, 0x45u8],
        /* art-lojban */ seq![0x61u8, 0x72u8, 0x74u8, 0x2du8, 0x6cu8, 0x6fu8, 0x6au8, 0x62u8, 0x61u8, 0x6eu8],
        /* cel-gaulish */ seq![0x63u8, 0x65u8, 0x6cu8, 0x2du8, 0x67u8, 0x61u8, 0x75u8, 0x6cu8, 0x69u8, 0x73u8, 0x68u8],
        /* no-bok */ seq![0x6eu8, 0x6fu8, 0x2du8, 0x62u8, 0x6fu8, 0x6bu8],
        /* no-nyn */ seq![0x6eu8, 0x6fu8, 0x2du8, 0x6eu8, 0x79u8, 0x6eu8],
        /* zh-guoyu */ seq![0x7au8, 0x68u8, 0x2du8, 0x67u8, 0x75u8, 0x6fu8, 0x79u8, 0x75u8],
        /* zh-hakka */ seq![0x7au8, 0x68u8, 0x2du8, 0x68u8, 0x61u8, 0x6bu8, 0x6bu8, 0x61u8],
        /* zh-min */ seq![0x7au8, 0x68u8, 0x2du8, 0x6du8, 0x69u8, 0x6eu8],
        /* zh-min-nan */ seq![0x7au8, 0x68u8, 0x2du8, 0x6du8, 0x69u8, 0x6eu8, 0x2du8, 0x6eu8, 0x61u8, 0x6eu8],
        /* zh-xiang */ seq![0x7au8, 0x68u8, 0x2du8, 0x78u8, 0x69u8, 0x61u8, 0x6eu8, 0x67u8],
    ]
}
/// a literal word, case-insensitive
pub open spec fn word(w: Seq<u8>) -> Re decreases w.len() {
    if w.len() == 0 { Re::Eps } else if w.len() == 1 { cls(K::Lit(w[0])) } else { cat(cls(K::Lit(w[0])), word(w.subrange(1, w.len() as int))) }
}
pub open spec fn word_alts(ws: Seq<Seq<u8>>, i: nat) -> Re decreases ws.len() - i {
    if i >= ws.len() { Re::Zero } else { alt(word(ws[i as int]), word_alts(ws, i + 1)) }
}
// grandfathered = irregular / regular
pub open spec fn grandfathered() -> Re { word_alts(grandfathered_words(), 0) }
// Language-Tag = langtag / privateuse / grandfathered
pub open spec fn language_tag() -> Re { alt(langtag(), alt(privateuse(), grandfathered())) }

} // verus!
}
