// C04: decks of cards and their files.
#include "card_model.hpp"
#include <algorithm>
extern "C" {
#include "card.h"
extern unsigned long sim_log_warns, sim_log_errors;
}
namespace {
bool faults; uint32_t serial;
struct Deck {
    card_context *c; std::vector<Card> cards; size_t pos = 0; int mode = 0;
    std::string file; std::vector<Card> saved; std::vector<int> saved_mode; bool file_doubt = false;
};
Deck D[3]; std::vector<Card> hand;
struct Armed { uint64_t f, a; unsigned long w; Armed() { f = env::faults_fired; a = env::alloc_failures; w = sim_log_warns + sim_log_errors; env::armed = true; } ~Armed() { env::armed = false; } bool hit() { return faults && (env::faults_fired != f || env::alloc_failures != a); } bool logged() { return sim_log_warns + sim_log_errors != w; } };
std::string diff(const Card &a, const Card &b) { for (int i = 0; i < 80; i++) if (a[i] != b[i]) { char t[80]; snprintf(t, sizeof t, "column %d is %03x instead of %03x", i + 1, a[i], b[i]); return t; } return ""; }

void sizes(Deck &d, int i, const char *op, bool stack = true) {
    CHECK(hopper_size(d.c) == (int)(d.cards.size() - d.pos), "hopper-count", "after %s deck %d holds %d cards to read, %zu expected", op, i, hopper_size(d.c), d.cards.size() - d.pos);
    if (stack) CHECK(stack_size(d.c) == (int)d.cards.size(), "stack-count", "after %s deck %d holds %d cards, %zu expected", op, i, stack_size(d.c), d.cards.size());
}
void compact(Deck &d) { d.cards.erase(d.cards.begin(), d.cards.begin() + d.pos); d.pos = 0; }
void punched(Deck &d) { while (d.pos < d.cards.size()) { d.saved.push_back(d.cards[d.pos++]); d.saved_mode.push_back(d.mode); } }
// the file now on disk must hold what was saved
void verify(Deck &d, const std::string &name, const char *when) {
    auto f = env::get(name); std::vector<Card> got; CHECK(f != nullptr, "file-missing", "%s: %s does not exist", when, name.c_str());
    std::string e = cards_in(f->data, d.saved_mode, got);
    for (size_t i = 0; i < d.saved.size() && i < got.size(); i++) {
        Card w = d.saved[i];
        if (!representable(w, d.saved_mode[i])) continue;
        CHECK(got[i] == w, "saved-card-wrong", "%s: card %zu of %zu in %s (%s): %s", when, i, d.saved.size(), name.c_str(), mode_name[d.saved_mode[i]], diff(got[i], w).c_str());
    }
    bool odd = false; for (size_t i = 0; i < d.saved.size(); i++) if (!representable(d.saved[i], d.saved_mode[i])) odd = true;
    if (!odd) CHECK(e.empty(), "saved-file-bad", "%s: %s: %s", when, name.c_str(), e.c_str());
    else CHECK(got.size() == d.saved.size() || !e.empty(), "saved-file-bad", "%s: %s", when, name.c_str());
}
void drop_file(Deck &d) { d.file.clear(); d.saved.clear(); d.saved_mode.clear(); d.file_doubt = false; }

void op_close(int i) {
    Deck &d = D[i]; std::string n = d.file; int rc; bool hit;
    { Armed a; rc = close_deck(d.c); hit = a.hit(); }
    sim.ev("close deck %d -> %d", i, rc);
    CHECK(rc == 0 || hit || d.file_doubt, "close-failed", "closing a deck returned %d with no fault", rc);
    if (!n.empty() && rc == 0) verify(d, n, "after close");
    CHECK(d.c->file == nullptr, "close-left-open", "closed deck still has its file");
    drop_file(d); sizes(d, i, "close");
}
void op_read_deck(int i) {
    Deck &d = D[i];
    // somebody else's file in this deck's format
    std::vector<Card> in; std::vector<uint8_t> b; int m = d.mode;
    int n = sim.weighted({10, 60, 20, 10}); n = n == 0 ? 0 : n == 1 ? 1 + sim.choose(12) : n == 2 ? sim.choose(130) : 900 + sim.choose(300);
    bool loose = sim.choose(3) != 0; int kind = sim.choose(9); int fmt = m == M_AUTO && sim.choose(4) == 0 ? M_BIN : m == M_OCTAL ? (sim.choose(2) ? M_OCTAL : M_AUTO) : m;
    for (int k = 0; k < n; k++) {
        Card c = gen_card(kind == 8 ? sim.choose(8) : kind, serial++);
        if (fmt == M_BIN && m == M_AUTO) { if (sim.choose(2)) { c = gen_card(2, serial); } c[40] = 0; c[79] = 0; }  // binary is told by its non-text bytes
        if (fmt == M_TEXT && !is_text(c) && sim.choose(2)) c = gen_card(0, serial);
        if (fmt != M_TEXT && fmt != M_AUTO && fmt != M_OCTAL && !representable(c, fmt)) c = gen_card(fmt == M_EBCDIC ? 1 : 2, serial);
        card_out(b, c, fmt, loose && fmt != M_BIN && fmt != M_EBCDIC, k + 1 == n, m != M_AUTO); in.push_back(c);
        if (fmt != M_BIN && fmt != M_EBCDIC && loose && sim.choose(40) == 0 && k + 1 < n) { const char *l = sim.choose(2) ? "~\n" : "~  \r\n"; while (*l) b.push_back(*l++); Card z; z.fill(0); in.push_back(z); sim.probe("lone-tilde"); }
        if (fmt != M_BIN && fmt != M_EBCDIC && loose && m != M_AUTO && sim.choose(40) == 0 && k + 1 < n) { // a character no keypunch has
            static const uint8_t bad[] = {1, 0x1b, 0x7f, 0x80, 0xc3, 0xff}; uint8_t ch = sim.pick(bad); b.push_back('A'); b.push_back(ch); b.push_back('B'); b.push_back('\n'); Card z; z.fill(0); z[0] = 0x900; z[1] = 0xfff; z[2] = 0x880; in.push_back(z); sim.probe("unpunchable-character"); }
    }
    if (sim.choose(12) == 0 && (m == M_BIN) && n) { b.resize(b.size() - 160 + sim.choose(160)); in.pop_back(); n = (int)in.size(); if (b.size() % 160) { Card z; z.fill(0); z[0] = 0xfff; in.push_back(z); sim.probe("short-binary-card"); } }
    env::put("in.deck", b);
    std::string n0 = d.file; int rc; bool hit, logged;
    { Armed a; rc = read_deck(d.c, (char *)"in.deck"); hit = a.hit(); logged = a.logged(); }
    sim.ev("read deck %d %s, %zu cards, %zu bytes -> %d", i, mode_name[fmt], in.size(), b.size(), rc);
    if (!n0.empty() && !d.file_doubt && !hit) verify(d, n0, "after another deck was loaded");
    drop_file(d);
    if (rc != 1) {
        CHECK(hit, "read-deck-failed", "reading a deck returned %d with no fault", rc);
        CHECK(logged, "read-deck-silent", "reading a deck failed and nothing was logged");
        CHECK(hopper_size(d.c) == (int)(d.cards.size() - d.pos), "failed-read-count", "a failed read left %d cards in the hopper instead of %zu", hopper_size(d.c), d.cards.size() - d.pos);
        if (stack_size(d.c) != (int)d.cards.size()) compact(d);
        sizes(d, i, "failed read"); sim.probe("read-deck-failed"); return;
    }
    compact(d); for (auto &c : in) d.cards.push_back(c);
    sizes(d, i, "reading a deck"); sim.ticks(in.size());
    if (sim.choose(8) == 0) op_close(i);
}
void op_missing(int i) {
    Deck &d = D[i]; if (!d.file.empty()) op_close(i);
    int rc; { Armed a; rc = read_deck(d.c, (char *)"no.such.deck"); }
    sim.ev("read missing deck %d -> %d", i, rc);
    CHECK(rc != 1, "missing-deck-read", "a deck that does not exist was read");
    if (stack_size(d.c) != (int)d.cards.size()) compact(d);
    sizes(d, i, "failed open");
}
void op_cards(int i) {
    Deck &d = D[i]; int n = 1 + sim.choose(sim.choose(4) ? 20 : 400);
    sim.ev("read %d cards from deck %d", n, i);
    while (n--) {
        uint16_t im[80]; memset(im, 0xaa, sizeof im);
        int rc = read_card(d.c, &im);
        if (d.pos == d.cards.size()) { CHECK(rc == 0, "card-from-nothing", "reading from an empty hopper returned %d", rc); break; }
        CHECK(rc == 1, "card-not-read", "reading a card returned %d with %zu cards in the hopper", rc, d.cards.size() - d.pos);
        Card c; memcpy(c.data(), im, 160);
        CHECK(c == d.cards[d.pos], "card-wrong", "card %zu of deck %d: %s", d.pos, i, diff(c, d.cards[d.pos]).c_str());
        d.pos++; hand.push_back(c); if (hand.size() > 500) hand.erase(hand.begin(), hand.begin() + 100);
    }
    sizes(d, i, "reading cards");
}
void op_stack(int i) {
    Deck &d = D[i]; int n = 1 + sim.choose(sim.choose(4) ? 20 : 600); int kind = sim.choose(9);
    sim.ev("stack %d cards on deck %d", n, i);
    while (n--) {
        Card c; if (!hand.empty() && kind != 3) { c = hand.front(); hand.erase(hand.begin()); } else c = gen_card(kind == 8 ? sim.choose(8) : kind, serial++);
        uint16_t im[80]; memcpy(im, c.data(), 160);
        int rc; bool hit; { Armed a; rc = stack_card(d.c, &im); hit = a.hit(); }
        if (rc != 0) { CHECK(hit, "stack-failed", "stacking a card returned %d with no fault", rc); sim.probe("stack-failed"); sizes(d, i, "failed stack"); continue; }
        d.cards.push_back(c); if (!d.file.empty()) { punched(d); if (hit) d.file_doubt = true; }
    }
    sizes(d, i, "stacking");
}
void op_blank(int i) {
    Deck &d = D[i]; int n = sim.choose(3) ? sim.choose(20) : 950 + sim.choose(150);
    bool hit, logged; { Armed a; blank_deck(d.c, n); hit = a.hit(); logged = a.logged(); }
    compact(d); int got = hopper_size(d.c) - (int)d.cards.size();
    sim.ev("blank deck %d, %d cards -> %d", i, n, got);
    CHECK(got == n || (hit && logged && got >= 0 && got < n), "blank-count", "adding %d blank cards added %d", n, got);
    Card z; z.fill(0); while (got-- > 0) d.cards.push_back(z);
    sizes(d, i, "adding blanks");
}
void op_empty(int i) {
    Deck &d = D[i]; bool hit; { Armed a; empty_cards(d.c); hit = a.hit(); }
    sim.ev("empty deck %d", i);
    if (!d.file.empty()) { punched(d); if (hit) d.file_doubt = true; else if (!d.file_doubt) verify(d, d.file, "after emptying the stacker"); }
    d.cards.clear(); d.pos = 0; sizes(d, i, "emptying");
}
void op_save(int i) {
    Deck &d = D[i]; std::string n0 = d.file; char nm[20]; snprintf(nm, sizeof nm, "out%d.deck", (int)sim.choose(4));
    for (int k = 0; k < 3; k++) if (k != i && D[k].file == nm) return;     // another deck is writing it
    int rc; bool hit; { Armed a; rc = save_deck(d.c, nm); hit = a.hit(); }
    sim.ev("save deck %d to %s -> %d", i, nm, rc);
    if (!n0.empty() && n0 != nm && !hit && !d.file_doubt) verify(d, n0, "after saving under another name");
    drop_file(d);
    if (rc != 0) { CHECK(hit, "save-failed", "saving a deck returned %d with no fault", rc); sizes(d, i, "failed save"); sim.probe("save-failed"); return; }
    d.file = nm; punched(d);
    verify(d, nm, "after save"); sizes(d, i, "saving");
}
// what a deck saved is read back through the reader in the same format
void op_roundtrip(int i) {
    Deck &d = D[i]; if (d.file.empty() || d.file_doubt) return;
    for (int m : d.saved_mode) if (m != d.mode) return;
    std::string n = d.file; std::vector<Card> s = d.saved; int m = d.mode;
    for (auto &c : s) if (!representable(c, m)) return;
    bool hit; int rc; { Armed a; rc = close_deck(d.c); hit = a.hit(); } if (rc != 0 || hit) { drop_file(d); return; }
    drop_file(d);
    Deck &h = D[0]; if (&h == &d || !h.file.empty()) return;
    if (h.mode != m && h.file.empty()) { h.mode = m; h.c->mode = m; }
    { Armed a; rc = read_deck(h.c, (char *)n.c_str()); hit = a.hit(); }
    sim.ev("read back %s (%s, %zu cards) -> %d", n.c_str(), mode_name[m], s.size(), rc);
    if (rc != 1) { CHECK(hit, "read-back-failed", "reading a saved deck returned %d", rc); if (stack_size(h.c) != (int)h.cards.size()) compact(h); sizes(h, 0, "failed read"); return; }
    compact(h); for (auto &c : s) h.cards.push_back(c);
    sim.probe("round-trip"); sizes(h, 0, "reading back a saved deck");
}
void run(bool f) {
    faults = f; sim.step_budget = 2000000; serial = 1;
    for (int i = 0; i < 3; i++) { D[i].c = init_card_context(); CHECK(D[i].c, "init", "no context"); D[i].mode = sim.choose(5); D[i].c->mode = D[i].mode; }
    if (f) {
        sim.fault_scale = 1; static const uint32_t lv[] = {0, 0, 20, 100, 300};
        env::rates.open_fail = sim.pick(lv); env::rates.read_eio = sim.pick(lv); env::rates.write_eio = sim.pick(lv); env::rates.enospc = sim.pick(lv);
        env::rates.short_read = sim.pick(lv); env::rates.short_write = sim.pick(lv); env::rates.eintr = sim.pick(lv); env::rates.close_fail = sim.pick(lv); env::rates.alloc_fail = sim.pick(lv);
    }
    int n = 3 + sim.choose(40); std::vector<int> w; for (int i = 0; i < 8; i++) w.push_back(1 + sim.choose(12)); w.push_back(1);
    for (int k = 0; k < n; k++) {
        int i = sim.choose(3);
        switch (sim.weighted(w)) {
        case 0: op_cards(i); break; case 1: op_read_deck(i); break; case 2: op_stack(i); break; case 3: op_save(i); break;
        case 4: op_roundtrip(i); break; case 5: op_close(i); break; case 6: op_blank(i); break; case 7: op_empty(i); break;
        case 8: op_missing(i); break;
        }
        if (sim.choose(12) == 0) { int m = sim.choose(5); D[i].mode = m; D[i].c->mode = m; }
        sim.step(100); CHECK(!env::stray_io, "stray-io", "%s", env::stray_what.c_str());
        sim.state(hash64(hash64(D[i].cards.size() % 1000, D[i].pos % 1000), D[i].mode * 8 + i * 2 + !D[i].file.empty()));
        if (D[i].cards.size() > 6000) op_empty(i);
    }
    sim.faults_on = false;
    for (int i = 0; i < 3; i++) { if (!D[i].file.empty()) { op_close(i); } while (D[i].pos < D[i].cards.size()) op_cards(i); }
    CHECK(env::open_fds == 0, "descriptor-leak", "%d files open after every deck was closed", env::open_fds);
    if (!f || env::faults_fired || env::alloc_failures) sim.nontrivial();
    sim.done();
}
void run_plain() { run(false); }
void run_faults() { run(true); }
void run_garbage() {     // any bytes as a deck, any format: bounded, no harm
    sim.step_budget = 2000000;
    for (int e = 0; e < 20; e++) {
        Deck &d = D[0]; if (!d.c) d.c = init_card_context(); d.c->mode = sim.choose(5);
        std::vector<uint8_t> b(sim.choose(sim.choose(3) ? 600 : 30000)); uint64_t x = sim.random64() | 1; int st = sim.choose(4);
        for (auto &c : b) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; uint8_t v = x >> 30; c = st == 0 ? v : st == 1 ? "~raweofi01234567\n\r\t AB"[v % 23] : st == 2 ? (v & 0x70) : "P\n"[v & 1]; }
        env::put("g.deck", b); int before = hopper_size(d.c);
        int rc = read_deck(d.c, (char *)"g.deck");
        sim.ev("garbage %zu bytes mode %d -> %d, %d cards", b.size(), d.c->mode, rc, hopper_size(d.c) - before);
        CHECK(rc == 1, "garbage-failed", "reading returned %d", rc);
        CHECK(hopper_size(d.c) - before <= (int)b.size() && (b.empty() || hopper_size(d.c) > before), "garbage-count", "%zu bytes gave %d cards", b.size(), hopper_size(d.c) - before);
        uint16_t im[80]; while (read_card(d.c, &im)) for (int i = 0; i < 80; i++) CHECK(im[i] < 0x1000, "no-such-punch", "column %d is %04x", i, im[i]);
        close_deck(d.c); sim.step(100);
    }
    sim.fault_fired("garbage-file"); sim.nontrivial(); sim.done();
}
void run_codes() {       // every code, both directions
    static card_context *c = init_card_context(); (void)c;
    for (int i = 0; i < 256; i++) {
        CHECK(ebcdic_to_hol(i) == ebc_hol[i], "ebcdic-code", "EBCDIC %02x punches %03x instead of %03x", i, ebcdic_to_hol(i), ebc_hol[i]);
        CHECK(hol_to_ebcdic(ebc_hol[i]) == i, "ebcdic-decode", "%03x reads as EBCDIC %02x instead of %02x", ebc_hol[i], hol_to_ebcdic(ebc_hol[i]), i);
        uint16_t a = ascii_to_hol(i); if (i >= 128 || i < 32) CHECK(a & 0xf000, "ascii-code", "character %02x punches %03x", i, a);
    }
    for (int i = 0; i < 4096; i++) { if (ebc_of(i) < 0) CHECK(hol_to_ebcdic(i) == 0x100, "ebcdic-invalid", "%03x is no EBCDIC punch but reads as %02x", i, hol_to_ebcdic(i)); if (txt_of(i) < 0) CHECK(hol_to_ascii(i) == 0xff, "ascii-invalid", "%03x is no text punch but reads as %02x", i, hol_to_ascii(i)); else CHECK(txt_hol[hol_to_ascii(i)] == i, "ascii-decode", "%03x reads as %02x", i, hol_to_ascii(i)); }
    sim.nontrivial(); sim.ev("codes %d", (int)sim.choose(1)); sim.done();
}
}
Property property = { "C04", { { "deck-history", run_plain, 9000, 300000, "cards" }, { "deck-faults", run_faults, 9000, 300000, "cards" }, { "any-bytes", run_garbage, 1500, 60000, "cards" }, { "codes", run_codes, 1, 1, "cards" } },
  "a run is one history of reading, stacking, saving, closing, blanking and emptying three decks in seeded formats, with or without storage and allocation faults, or arbitrary bytes read as decks; non-trivial: fault-free histories, and faulty ones in which a fault fired",
  "hash of (deck size modulo 1000, read position modulo 1000, format, which deck, file open)",
  { "src/device/card.c" }, { "host file system (in-memory, faulting)", "logger (counts messages)" },
  { "text lines of a deck are at most 480 characters", "after a reported write error the contents of that output file are not judged" },
  { "round-trip", "save-failed", "read-deck-failed", "stack-failed", "lone-tilde", "unpunchable-character" }, 30, 800 };
