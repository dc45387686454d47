#!/usr/bin/env python3
"""Published single-byte tables (from CPython's codecs, an independent source) -> harness/common/sbc_tables.hpp.
Bytes 0x80..0x9F that a windows code page leaves undefined map to the C1 control of the same value
(Microsoft's own tables and WHATWG do that; both also map 0xCA of windows-1255 to U+05BA); other undefined bytes are invalid."""
names = ["ascii"] + ["iso_8859_%d" % i for i in (1,2,3,4,5,6,7,8,9,10,11,13,14,15,16)] + ["windows_125%d" % i for i in range(9)]
py = {"ascii": "ascii"}
for n in names[1:]:
    py[n] = n.replace("_", "-") if n.startswith("iso") else n.replace("windows_", "cp")
out = ["// generated by tools/gen_sbc.py", "#pragma once", "#include <cstdint>", "namespace sbc {",
       "constexpr int count = %d;" % len(names), "constexpr uint16_t invalid = 0xFFFF;",
       "inline constexpr const char* ids[count] = {%s};" % ", ".join('"%s"' % n for n in names),
       "inline constexpr const char* names[count] = {%s};" % ", ".join('"%s"' % ("ASCII" if n == "ascii" else n.replace("iso_8859_", "ISO-8859-").replace("windows_", "windows-")) for n in names),
       "inline constexpr uint16_t table[count][256] = {"]
for n in names:
    row = []
    for b in range(256):
        try:
            c = ord(bytes([b]).decode(py[n]))
        except UnicodeDecodeError:
            c = 0x5BA if (n, b) == ("windows_1255", 0xCA) else b if n.startswith("windows") and 0x80 <= b < 0xA0 else 0xFFFF
        row.append("0x%X" % c)
    out.append("{" + ",".join(row) + "},")
out += ["};", "}"]
out.insert(4, "#define SBC_LIST(X) " + " ".join("X(%s)" % n for n in names))
open(__file__.rsplit("/", 2)[0] + "/harness/common/sbc_tables.hpp", "w").write("\n".join(out) + "\n")
