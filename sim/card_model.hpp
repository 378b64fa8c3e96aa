// Card code tables and file codecs, independent of card.c.
#pragma once
#include "core.hpp"
#include "env.hpp"
#include <array>
#include <string.h>
// IBM punch code of each EBCDIC byte, and of each ASCII character on an 029.
static const uint16_t ebc_hol[256] = {0xb03, 0x901, 0x881, 0x841, 0x821, 0x811, 0x809, 0x805, 0x803, 0x903, 0x883, 0x843, 0x823, 0x813,
0x80b, 0x807, 0xd03, 0x501, 0x481, 0x441, 0x421, 0x411, 0x409, 0x405, 0x403, 0x503, 0x483, 0x443, 0x423, 0x413, 0x40b, 0x407, 0x703, 0x301,
0x281, 0x241, 0x221, 0x211, 0x209, 0x205, 0x203, 0x303, 0x283, 0x243, 0x223, 0x213, 0x20b, 0x207, 0xf03, 0x101, 0x81, 0x41, 0x21, 0x11, 0x9,
0x5, 0x3, 0x103, 0x83, 0x43, 0x23, 0x13, 0xb, 0x7, 0x0, 0xb01, 0xa81, 0xa41, 0xa21, 0xa11, 0xa09, 0xa05, 0xa03, 0x902, 0x882, 0x842, 0x822,
0x812, 0x80a, 0x806, 0x800, 0xd01, 0xc81, 0xc41, 0xc21, 0xc11, 0xc09, 0xc05, 0xc03, 0x502, 0x482, 0x442, 0x422, 0x412, 0x40a, 0x406, 0x400,
0x300, 0x681, 0x641, 0x621, 0x611, 0x609, 0x605, 0x603, 0x302, 0xc00, 0x242, 0x222, 0x212, 0x20a, 0x206, 0xe00, 0xf01, 0xe81, 0xe41, 0xe21,
0xe11, 0xe09, 0xe05, 0xe03, 0x102, 0x82, 0x42, 0x22, 0x12, 0xa, 0x6, 0xb02, 0xb00, 0xa80, 0xa40, 0xa20, 0xa10, 0xa08, 0xa04, 0xa02, 0xa01,
0xa82, 0xa42, 0xa22, 0xa12, 0xa0a, 0xa06, 0xd02, 0xd00, 0xc80, 0xc40, 0xc20, 0xc10, 0xc08, 0xc04, 0xc02, 0xc01, 0xc82, 0xc42, 0xc22, 0xc12,
0xc0a, 0xc06, 0x702, 0x700, 0x680, 0x640, 0x620, 0x610, 0x608, 0x604, 0x602, 0x601, 0x682, 0x642, 0x622, 0x612, 0x60a, 0x606, 0xf02, 0xf00,
0xe80, 0xe40, 0xe20, 0xe10, 0xe08, 0xe04, 0xe02, 0xe01, 0xe82, 0xe42, 0xe22, 0xe12, 0xe0a, 0xe06, 0xa00, 0x900, 0x880, 0x840, 0x820, 0x810,
0x808, 0x804, 0x802, 0x801, 0xa83, 0xa43, 0xa23, 0xa13, 0xa0b, 0xa07, 0x600, 0x500, 0x480, 0x440, 0x420, 0x410, 0x408, 0x404, 0x402, 0x401,
0xc83, 0xc43, 0xc23, 0xc13, 0xc0b, 0xc07, 0x282, 0x701, 0x280, 0x240, 0x220, 0x210, 0x208, 0x204, 0x202, 0x201, 0x683, 0x643, 0x623, 0x613,
0x60b, 0x607, 0x200, 0x100, 0x80, 0x40, 0x20, 0x10, 0x8, 0x4, 0x2, 0x1, 0xe83, 0xe43, 0xe23, 0xe13, 0xe0b, 0xe07};
static const uint16_t txt_hol[128] = {0xf000, 0xf000, 0xf000, 0xf000, 0xf000, 0xf000, 0xf000, 0xf000, 0xf000, 0xf000, 0xf000, 0xf000,
0xf000, 0xf000, 0xf000, 0xf000, 0xf000, 0xf000, 0xf000, 0xf000, 0xf000, 0xf000, 0xf000, 0xf000, 0xf000, 0xf000, 0xf000, 0xf000, 0xf000,
0xf000, 0xf000, 0xf000, 0x0, 0x482, 0x6, 0x42, 0x442, 0x222, 0x800, 0x12, 0x812, 0x412, 0x422, 0x80a, 0x242, 0x400, 0x842, 0x300, 0x200,
0x100, 0x80, 0x40, 0x20, 0x10, 0x8, 0x4, 0x2, 0x1, 0x82, 0x40a, 0x822, 0xa, 0x20a, 0x206, 0x22, 0x900, 0x880, 0x840, 0x820, 0x810, 0x808,
0x804, 0x802, 0x801, 0x500, 0x480, 0x440, 0x420, 0x410, 0x408, 0x404, 0x402, 0x401, 0x280, 0x240, 0x220, 0x210, 0x208, 0x204, 0x202, 0x201,
0xe82, 0x282, 0xe42, 0x406, 0x212, 0x102, 0xb00, 0xa80, 0xa40, 0xa20, 0xa10, 0xa08, 0xa04, 0xa02, 0xa01, 0xd00, 0xc80, 0xc40, 0xc20, 0xc10,
0xc08, 0xc04, 0xc02, 0xc01, 0x680, 0x640, 0x620, 0x610, 0x608, 0x604, 0x602, 0x601, 0x406, 0x806, 0x805, 0xf02, 0xf000};
typedef std::array<uint16_t, 80> Card;
enum { M_AUTO, M_TEXT, M_EBCDIC, M_BIN, M_OCTAL };
__attribute__((unused)) static const char *mode_name[] = {"AUTO", "TEXT", "EBCDIC", "BIN", "OCTAL"};
static inline int txt_of(uint16_t h) { static int t[4096], init = 0; if (!init) { memset(t, -1, sizeof t); for (int i = 32; i < 128; i++) if (txt_hol[i] < 0x1000) t[txt_hol[i]] = i; init = 1; } return t[h & 0xfff]; }
static inline int ebc_of(uint16_t h) { static int t[4096], init = 0; if (!init) { memset(t, -1, sizeof t); for (int i = 0; i < 256; i++) t[ebc_hol[i]] = i; init = 1; } return t[h & 0xfff]; }
static inline bool special(const Card &c, const char **name) {
    for (int i = 1; i < 80; i++) if (c[i]) return false;
    *name = c[0] == 07 ? "eor" : c[0] == 015 ? "eof" : c[0] == 017 ? "eoi" : nullptr; return *name != nullptr;
}
static inline bool is_text(const Card &c) { for (auto h : c) if (txt_of(h) < 0) return false; return true; }
static inline bool representable(const Card &c, int mode) {
    switch (mode) {
    case M_TEXT: return is_text(c) && txt_of(c[0]) != '~';
    case M_EBCDIC: for (auto h : c) if (ebc_of(h) < 0) return false; return true;
    default: return true;
    }
}
// One card in the given file format.  `loose` varies what the format leaves
// free: line ends, tabs, trailing blanks, text beyond column 80, letter case.
static inline void card_out(std::vector<uint8_t> &o, const Card &c, int mode, bool loose, bool last, bool nuls) {
    auto put = [&](const char *s) { while (*s) o.push_back(*s++); };
    auto eol = [&]() { if (last && loose && sim.choose(3) == 0) return; if (loose && sim.choose(3) == 0) o.push_back('\r'); o.push_back('\n'); };
    if (mode == M_BIN) { for (auto h : c) { o.push_back((h & 0xf) << 4); o.push_back(h >> 4); } return; }
    if (mode == M_EBCDIC) { for (auto h : c) o.push_back(ebc_of(h)); return; }
    bool raw = mode == M_OCTAL || !representable(c, M_TEXT);
    const char *sp;
    if (raw && special(c, &sp)) { o.push_back('~'); for (const char *p = sp; *p; p++) o.push_back(loose && sim.choose(2) ? *p - 32 : *p); eol(); return; }
    if (raw) {
        put(loose && sim.choose(2) ? "~RAW" : "~raw");
        int n = 80; if (loose && sim.choose(2)) while (n > 0 && c[n - 1] == 0) n--;      // the rest is not punched
        for (int i = 0; i < n; i++) for (int s = 9; s >= 0; s -= 3) o.push_back('0' + ((c[i] >> s) & 7));
        eol(); return;
    }
    int n = 80; if (!loose || sim.choose(2)) while (n > 0 && c[n - 1] == 0) n--;
    int style = loose ? sim.choose(4) : 0;
    for (int i = 0; i < n;) {
        if (style == 1) { int stop = (i | 7) + 1, k = i; while (k < stop && k < n && c[k] == 0) k++; if (k == stop && stop <= n) { o.push_back('\t'); i = stop; continue; } }
        if (style == 2 && nuls && sim.choose(20) == 0) o.push_back(0);
        o.push_back(txt_of(c[i])); i++;
    }
    if (n == 80 && style == 3) { int k = sim.choose(300); while (k--) o.push_back("commentary "[k % 11]); }
    if (!loose && n == 0) o.push_back(' ');
    if (n == 0 && last && (o.empty() || o.back() == '\n')) o.push_back(' ');
    eol();
}
// Strict reader of what the punch writes; empty string or what is wrong.
static inline std::string cards_in(const std::vector<uint8_t> &b, const std::vector<int> &modes, std::vector<Card> &out) {
    size_t p = 0; out.clear();
    for (size_t n = 0; n < modes.size(); n++) {
        Card c; c.fill(0); int mode = modes[n];
        if (p >= b.size()) return "file ends before card " + std::to_string(n);
        if (mode == M_BIN) { if (p + 160 > b.size()) return "short binary card"; for (int i = 0; i < 80; i++) { if (b[p + 2 * i] & 0xf) return "bad binary card"; c[i] = (b[p + 2 * i] >> 4) | b[p + 2 * i + 1] << 4; } p += 160; }
        else if (mode == M_EBCDIC) { if (p + 80 > b.size()) return "short EBCDIC card"; for (int i = 0; i < 80; i++) c[i] = ebc_hol[b[p + i]]; p += 80; }
        else {
            std::string l; while (p < b.size() && b[p] != '\n') l += (char)b[p++];
            if (p >= b.size()) return "card " + std::to_string(n) + " has no line end";
            p++;
            if (l.compare(0, 4, "~raw") == 0) {
                if (l.size() != 4 + 320) return "~raw card of " + std::to_string(l.size()) + " characters";
                for (int i = 0; i < 80; i++) for (int k = 0; k < 4; k++) { char ch = l[4 + 4 * i + k]; if (ch < '0' || ch > '7') return "bad octal digit"; c[i] = c[i] << 3 | (ch - '0'); }
            } else if (l == "~eor") c[0] = 07; else if (l == "~eof") c[0] = 015; else if (l == "~eoi") c[0] = 017;
            else { if (l.size() > 80) return "text card longer than 80 columns"; if (!l.empty() && l[0] == '~') return "text card starts with ~"; for (size_t i = 0; i < l.size(); i++) { uint8_t ch = l[i]; if (ch > 127 || txt_hol[ch] > 0xfff) return "unprintable character in text card"; c[i] = txt_hol[ch]; } }
        }
        out.push_back(c);
    }
    if (p != b.size()) return std::to_string(b.size() - p) + " bytes after the last card";
    return "";
}
static inline Card gen_card(int kind, uint32_t serial) {
    Card c; c.fill(0); uint64_t x = sim.random64() | 1;
    auto rnd = [&](uint32_t n) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return (uint32_t)((x >> 20) % n); };
    auto text = [&](int n) { for (int i = 0; i < n; i++) { int ch = 32 + rnd(95); c[i] = txt_hol[ch]; } };
    char s[16]; snprintf(s, sizeof s, "%06u", serial);
    switch (kind) {
    case 0: text(72); for (int i = 0; i < 6; i++) c[74 + i] = txt_hol[(int)s[i]]; if (txt_of(c[0]) == '~') c[0] = 0x100; break;
    case 1: for (int i = 0; i < 80; i++) c[i] = ebc_hol[rnd(256)]; break;
    case 2: for (int i = 0; i < 80; i++) c[i] = rnd(4096); break;
    case 3: break;                                                   // blank
    case 4: { static const uint16_t v[] = {07, 015, 017, 01, 0xfff, 0xe03, 0xf02, 0x806}; c[0] = sim.pick(v); break; }
    case 5: text(80); if (sim.choose(2)) c[0] = 0xf02; break;        // full, perhaps starting with ~
    case 6: { int k = rnd(3); c[0] = txt_hol[(int)"P0@"[k]]; break; } // one character
    default: { int n = rnd(81); text(n); if (n && txt_of(c[0]) == '~') c[0] = 0x900; break; }
    }
    return c;
}
