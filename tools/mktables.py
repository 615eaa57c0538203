#!/usr/bin/env python3
"""Generates harness/src/tables.rs: the reference code tables and national sets.

Tables that Python has a codec for come from the codec (with the listed differences of the printer tables),
PC851, PC853 and the katakana page are spelled out here (reviewed against the printer's character tables; PC851 also
against iconv)."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
high = bytes(range(128, 256))
def codec(n, diff={}):
    out = []
    for b in high:
        try: c = bytes([b]).decode(n)
        except UnicodeDecodeError: c = ""
        out.append(diff.get(b, c))
    return out
def spell(s, undefined):
    out, it = [], iter(s)
    for i in range(128):
        out.append("" if 128 + i in undefined else next(it))
    assert next(it, None) is None
    return out
T = {
 0: codec("cp437"), 2: codec("cp850", {0xF0: "-"}), 3: codec("cp860"), 4: codec("cp863"), 5: codec("cp865"),
 13: codec("cp857", {0xD5: "€", 0xE7: "", 0xF2: ""}),
 1: spell("▁▂▃▄▅▆▇█▏▎▍▌▋▊▉┼┴┬┤├¯─│▕┌┐└┘╭╮╰╯ ｡｢｣､･ｦｧｨｩｪｫｬｭｮｯｰｱｲｳｴｵｶｷｸｹｺｻｼｽｾｿﾀﾁﾂﾃﾄﾅﾆﾇﾈﾉﾊﾋﾌﾍﾎﾏﾐﾑﾒﾓﾔﾕﾖﾗﾘﾙﾚﾛﾜﾝﾞﾟ═╞╪╡◢◣◥◤♠♥♦♣●○╱╲╳円年月日時分秒〒市区町村人▓\xa0", ()),
 11: spell("ÇüéâäàΆçêëèïîΈÄΉΊΌôöΎûùΏÖÜά£έήίϊΐόύΑΒΓΔΕΖΗ½ΘΙ«»░▒▓│┤ΚΛΜΝ╣║╗╝ΞΟ┐└┴┬├─┼ΠΡ╚╔╩╦╠═╬ΣΤΥΦΧΨΩαβγ┘┌█▄δε▀ζηθικλμνξοπρσςτ´\xad±υφχ§ψ¸°¨ωϋΰώ■\xa0", (0x91,)),
 12: spell("ÇüéâäàĉçêëèïîìÄĈÉċĊôöòûùİÖÜĝ£Ĝ×ĵáíóúñÑĞğĤĥ½Ĵş«»░▒▓│┤ÁÂÀŞ╣║╗╝Żż┐└┴┬├─┼Ŝŝ╚╔╩╦╠═╬¤ÊËÈıÍÎÏ┘┌█▄Ì▀ÓßÔÒĠġµĦħÚÛÙŬŭ·´\xadℓŉ˘§÷¸°¨˙³²■\xa0", (0xAA, 0xD0, 0xD1, 0xDD, 0xF1, 0xFB)),
}
POS = [0x23, 0x24, 0x40, 0x5B, 0x5C, 0x5D, 0x5E, 0x60, 0x7B, 0x7C, 0x7D, 0x7E]
USA = "# $ @ [ \\ ] ^ ` { | } ~".split()
ROWS = {1: '# $ à ° ç § ^ ` é ù è ¨', 2: '# $ § Ä Ö Ü ^ ` ä ö ü ß', 3: '£ $ @ [ \\ ] ^ ` { | } ~', 4: '# $ @ Æ Ø Å ^ ` æ ø å ~',
 5: '# ¤ É Ä Ö Å Ü é ä ö å ü', 6: '# $ @ ° \\ é ^ ù à ò è ì', 7: '₧ $ @ ¡ Ñ ¿ ^ ` ¨ ñ } ~', 8: '# $ @ [ ¥ ] ^ ` { | } ~',
 9: '# ¤ É Æ Ø Å Ü é æ ø å ü', 10: '# $ É Æ Ø Å Ü é æ ø å ü', 11: '# $ á ¡ Ñ ¿ é ` í ñ ó ú', 12: '# $ á ¡ Ñ ¿ é ü í ñ ó ú',
 13: '# $ @ [ ₩ ] ^ ` { | } ~', 14: '# $ Ž Š Đ Č Ć ž š đ č ć', 15: '# ¥ @ [ \\ ] ^ ` { | } ~'}
SETS = {k: [(p, c) for p, c, u in zip(POS, r.split(), USA) if c != u] for k, r in ROWS.items()}
SETS[16] = [(0x23, "đ")]
SETS[17] = [(0x2A, "٭")]
for k, zero in {66: 0x966, 67: 0x9E6, 68: 0xBE6, 69: 0xC66, 70: 0x9E6, 71: 0xB66, 72: 0xCE6, 73: 0xD66, 74: 0xAE6, 75: 0xA66, 82: 0x966}.items():
    SETS[k] = [(0x30 + i, chr(zero + i)) for i in range(10)]
def q(c): return '"' + "".join("\\u{%X}" % ord(x) for x in c) + '"'
o = "//! Generated by tools/mktables.py: reference code tables (bytes 128..255) and national sets.\n\n"
o += "pub fn high(table: u8) -> &'static [&'static str; 128] {\n    match table {\n"
for k, t in sorted(T.items()):
    assert len(t) == 128
    if k: o += f"        {k} => &T{k},\n"
o += "        _ => &T0,\n    }\n}\n\npub fn national(set: u8) -> &'static [(u8, char)] {\n    match set {\n"
for k, t in sorted(SETS.items()):
    o += f"        {k} => &[" + ", ".join("(0x%02X, '\\u{%X}')" % (p, ord(c)) for p, c in t) + "],\n"
o += "        _ => &[],\n    }\n}\n\npub const TABLES: &[u8] = &[" + ", ".join(map(str, sorted(T))) + "];\npub const SETS: &[u8] = &[0, " + ", ".join(map(str, sorted(SETS))) + "];\n\n"
for k, t in sorted(T.items()):
    o += f"static T{k}: [&str; 128] = [\n"
    for i in range(0, 128, 8): o += "    " + ", ".join(q(c) for c in t[i:i + 8]) + ",\n"
    o += "];\n"
open(V + "/harness/src/tables.rs", "w").write(o)
