// C27: progress messages and colours
//
// All histories of tasks, messages and handlers; all colours, on each kind of
// output, seen by a small model of a terminal.
#include "mc.hpp"
#include "enumerate.hpp"
#include "msat/Progress.h"
#include "msat/utils/term.h"
#include <fcntl.h>
#include <memory>
#include <pty.h>
#include <sstream>
#include <unistd.h>

using std::string;
using std::vector;
using namespace msat;
using msat::term::Terminal;

namespace {

// ------------------------------------------------------------ Progress

/// A handler that tells what it is asked for, and when it goes
struct Handler : ProgressHandler
{
    string& log; int& gone;
    Handler(string& l, int& g) : log(l), gone(g) {}
    ~Handler() { ++gone; }
    void activity(const string& s, int p, int t) override { log += mc::fmt("a(%s,%d,%d)", s.c_str(), p, t); }
    void pushTask(const string& d) override { log += "+(" + d + ")"; }
    void popTask() override { log += "-"; }
};

/// What a stream handler should write
struct Model
{
    string out; int open = 0;
    void push(const string& d) { out += string(open, ' ') + d + "...\n"; ++open; }
    void pop() { if (open) --open; }
    void activity(const string& s, int p, int t)
    {
        out += string(open, ' ') + s;
        if (p != -1) out += t != -1 ? mc::fmt(" (%d/%d)", p, t) : mc::fmt(" %d%%", p);
        out += "\n";
    }
};

}

MC_GROUP(progress)
{
    const int numbers[] = { -2147483647 - 1, -2, -1, 0, 1, 50, 100, 101, 2147483647 };
    const char* texts[] = { "", "x", "reading file", "100%", "a\nb", " ", "%s%n" };
    for (auto t : texts) for (int p : numbers) for (int n : numbers) for (int depth = 0; depth < 4; ++depth)
    {
        if (!mc::begin("activity '%s' %d of %d, in %d tasks", t, p, n, depth)) continue;
        std::ostringstream o;
        StreamProgressHandler h(o);
        Model m;
        for (int i = 0; i < depth; ++i) { h.pushTask(t); m.push(t); }
        h.activity(t, p, n); m.activity(t, p, n);
        if (o.str() != m.out) mc::fail("text", "'%s' %d of %d in %d tasks is %s and not %s", t, p, n, depth, mc::show(o.str()).c_str(), mc::show(m.out).c_str());
        mc::count();
    }
    // Objects of their own: tasks, messages and handlers
    const char* names = "+-ams0ep";
    for (unsigned depth = 0; depth <= (mc::thorough ? 7 : 6); ++depth)
        mc::all_sequences(depth, 8, [&](const vector<unsigned>& seq) {
            string s;
            for (unsigned i : seq) s += names[i];
            if (!mc::begin("progress %s", s.c_str())) return;
            // The handlers that were set: what they wrote, should have written, how often they are gone
            struct Set { std::ostringstream o; Model m; string log, want; int gone = 0; bool stream; };
            vector<std::unique_ptr<Set>> sets;
            {
                Progress p;
                ProgressHandler* raw = nullptr;
                Set* cur = nullptr;
                for (unsigned i : seq)
                    switch (names[i])
                    {
                        case '+': p.pushTask("task"); if (cur) { if (cur->stream) cur->m.push("task"); else cur->want += "+(task)"; } break;
                        case '-': p.popTask(); if (cur) { if (cur->stream) cur->m.pop(); else cur->want += "-"; } break;
                        case 'a': p.activity("step"); if (cur) { if (cur->stream) cur->m.activity("step", -1, -1); else cur->want += "a(step,-1,-1)"; } break;
                        case 'p': p.activity("part", 3, 7); if (cur) { if (cur->stream) cur->m.activity("part", 3, 7); else cur->want += "a(part,3,7)"; } break;
                        case 'm': case 's':
                            sets.emplace_back(new Set);
                            cur = sets.back().get();
                            cur->stream = names[i] == 's';
                            raw = cur->stream ? (ProgressHandler*)new StreamProgressHandler(cur->o) : new Handler(cur->log, cur->gone);
                            p.setHandler(raw);
                            break;
                        case '0': p.setHandler(nullptr); raw = nullptr; cur = nullptr; break;
                        case 'e': if (raw) p.setHandler(raw); break;
                    }
                for (auto& x : sets)
                {
                    int want = x.get() != cur;
                    if (!x->stream && x->gone != want) mc::fail("released", "%s: a handler was released %d times and not %d", s.c_str(), x->gone, want);
                }
                mc::sh->transitions += seq.size();
            }
            for (auto& x : sets)
            {
                if (x->stream && x->o.str() != x->m.out) mc::fail("stream", "%s: %s was written and not %s", s.c_str(), mc::show(x->o.str()).c_str(), mc::show(x->m.out).c_str());
                if (!x->stream && x->log != x->want) mc::fail("handler", "%s: the handler was told %s and not %s", s.c_str(), x->log.c_str(), x->want.c_str());
                if (!x->stream && x->gone != 1) mc::fail("released", "%s: at the end a handler was released %d times", s.c_str(), x->gone);
            }
            ++mc::sh->traces;
            mc::count(!sets.empty());
        });
}

namespace {

/// All trees of nested tasks: each node is a task or a message; some end by an exception
void play(const string& shape, size_t& at, Model& m, int& thrown)
{
    while (at < shape.size())
    {
        char c = shape[at++];
        if (c == ')') return;
        if (c == 'a') { Progress::get().activity("step", 1, 2); m.activity("step", 1, 2); }
        if (c == '(')
        {
            m.push("task");
            ProgressTask t("task");
            t.activity("begins", 5);
            m.activity("begins", 5, -1);
            play(shape, at, m, thrown);
            m.pop();
        }
        if (c == '!') { thrown = 1; throw 1; }
    }
}

}

MC_GROUP(tasks)
{
    const char* c = "()a!";
    for (unsigned depth = 0; depth <= (mc::thorough ? 9 : 7); ++depth)
        mc::all_sequences(depth, 4, [&](const vector<unsigned>& seq) {
            string s;
            for (unsigned i : seq) s += c[i];
            if (!mc::begin("tasks %s", s.c_str())) return;
            std::ostringstream o;
            Model m;
            Progress::get().setHandler(new StreamProgressHandler(o));
            size_t at = 0;
            int thrown = 0;
            while (at < s.size())
            {
                try { play(s, at, m, thrown); } catch (int) { m.open = 0; }
            }
            // After all tasks have ended
            Progress::get().activity("end");
            m.activity("end", -1, -1);
            if (o.str() != m.out) mc::fail("tasks", "%s: %s and not %s", s.c_str(), mc::show(o.str()).c_str(), mc::show(m.out).c_str());
            Progress::get().setHandler(new ProgressHandler);
            string before = o.str();
            { ProgressTask t("silent"); t.activity("nothing"); }
            if (o.str() != before) mc::fail("tasks", "%s: a handler that was replaced still writes", s.c_str());
            ++mc::sh->traces;
            mc::count();
        });
    mc::sh->states = 4;
}

// ------------------------------------------------------------ Terminal

namespace {

/// What a terminal shows
struct Cell
{
    char c; int fg, bg; bool bright_fg, bright_bg;
    bool operator==(const Cell& o) const { return c == o.c && fg == o.fg && bg == o.bg && bright_fg == o.bright_fg && bright_bg == o.bright_bg; }
};
struct Screen
{
    vector<Cell> cells;
    int fg = 0, bg = 0;                // 0: default, 1-8: colours
    bool bold = false, light = false, bright_bg = false, bad = false;
    void put(const string& s)
    {
        for (size_t i = 0; i < s.size(); ++i)
        {
            if (s[i] != 0x1b) { cells.push_back({ s[i], fg, bg, bold || light, bright_bg }); continue; }
            if (s[i + 1] != '[') { bad = true; return; }
            size_t e = s.find('m', i);
            if (e == string::npos) { bad = true; return; }
            std::stringstream codes(s.substr(i + 2, e - i - 2));
            string k;
            bool any = false;
            while (std::getline(codes, k, ';')) { code(atoi(k.c_str())); any = true; if (k.empty() || k.find_first_not_of("0123456789") != string::npos) bad = true; }
            if (!any) code(0);
            i = e;
        }
    }
    void code(int n)
    {
        if (n == 0) { fg = bg = 0; bold = light = bright_bg = false; }
        else if (n == 1) bold = true;
        else if (n >= 30 && n <= 37) { fg = n - 29; light = false; }
        else if (n >= 90 && n <= 97) { fg = n - 89; light = true; }
        else if (n >= 40 && n <= 47) { bg = n - 39; bright_bg = false; }
        else if (n >= 100 && n <= 107) { bg = n - 99; bright_bg = true; }
        else bad = true;
    }
};
Screen shown(const string& s) { Screen r; r.put(s); return r; }
string text(const Screen& s) { string r; for (auto& c : s.cells) r += mc::fmt("%c[%d%s,%d%s] ", c.c, c.fg, c.bright_fg ? "+" : "", c.bg, c.bright_bg ? "+" : ""); return r; }

/// What set_color has to do from the default
Cell cell(char c, int fg, int bg)
{
    return { c, fg & 15, bg & 15, (fg & (int)Terminal::bright) != 0, (bg & 15) && (bg & (int)Terminal::bright) };
}

const vector<int>& colours()
{
    static vector<int> r;
    if (r.empty()) { for (int b : { 0, (int)Terminal::bright }) for (int c = 0; c <= 8; ++c) r.push_back(b | c); }
    return r;
}

}

MC_GROUP(colours)
{
    if (mc::begin("the names of colours"))
    {
        const unsigned c[] = { Terminal::black, Terminal::red, Terminal::green, Terminal::yellow, Terminal::blue, Terminal::magenta, Terminal::cyan, Terminal::white };
        for (int i = 0; i < 8; ++i) if (c[i] != i + 1u) mc::fail("names", "colour %d is %u", i, c[i]);
    }
    for (int tty = 0; tty < 2; ++tty)
        for (int fg : colours())
            for (int bg : colours())
                for (const char* s : { "", "x", "text" })
                {
                    if (!mc::begin("tty %d, colours %#x on %#x, text '%s'", tty, fg, bg, s)) continue;
                    vector<Cell> want;
                    for (const char* p = s; *p; ++p) want.push_back(tty ? cell(*p, fg, bg) : cell(*p, 0, 0));
                    want.push_back(cell('y', 0, 0));
                    vector<std::pair<string, string>> got;
                    {
                        char* buf = nullptr; size_t n = 0;
                        FILE* f = open_memstream(&buf, &n);
                        Terminal t(f);
                        if (t.isatty) mc::fail("tty", "memory is a terminal");
                        t.isatty = tty;
                        { auto r = t.set_color(fg, bg); fputs(s, t); }
                        fputs("y", t);
                        fflush(f);
                        got.push_back({ "set_color", string(buf, n) });
                        if (!bg)
                        {
                            fclose(f); free(buf); f = open_memstream(&buf, &n); t.out = f;
                            { auto r = t.set_color_fg(fg); fputs(s, t); }
                            fputs("y", t); fflush(f);
                            got.push_back({ "set_color_fg", string(buf, n) });
                            got.push_back({ "color_fg", t.color_fg(fg, s) + "y" });
                        }
                        if (!fg)
                        {
                            fclose(f); free(buf); f = open_memstream(&buf, &n); t.out = f;
                            { auto r = t.set_color_bg(bg); fputs(s, t); }
                            fputs("y", t); fflush(f);
                            got.push_back({ "set_color_bg", string(buf, n) });
                            got.push_back({ "color_bg", t.color_bg(bg, s) + "y" });
                        }
                        got.push_back({ "color", t.color(fg, bg, s) + "y" });
                        fclose(f);
                        free(buf);
                    }
                    for (auto& g : got)
                    {
                        Screen scr = shown(g.second);
                        if (scr.bad) mc::fail("sequence", "%s %#x on %#x: %s", g.first.c_str(), fg, bg, mc::show(g.second).c_str());
                        else if (!(scr.cells == want))
                        {
                            Screen w; w.cells = want;
                            mc::fail(mc::fmt("colour %s", g.first.c_str()), "%s %#x on %#x shows %s and not %s", g.first.c_str(), fg, bg, text(scr).c_str(), text(w).c_str());
                        }
                        if (!tty && g.second != string(s) + "y") mc::fail("plain", "%s writes %s to a file", g.first.c_str(), mc::show(g.second).c_str());
                    }
                    mc::count();
                    ++mc::sh->states;
                }
    // Colours within colours: what is not given stays, at the end of each the default returns
    for (int f1 : colours()) for (int b1 : colours()) for (int f2 : colours()) for (int b2 : colours())
    {
        if (!(f2 || b2) || (!f2 && !(b2 & 15))) continue;
        if (f1 && f2 && !mc::thorough && (f1 & 15) > 3) continue;
        if (!mc::begin("colours %#x on %#x, within %#x on %#x", f2, b2, f1, b1)) continue;
        char* buf = nullptr; size_t n = 0;
        FILE* f = open_memstream(&buf, &n);
        {
            Terminal t(f);
            t.isatty = true;
            {
                auto r1 = t.set_color(f1, b1);
                fputc('a', t);
                { auto r2 = t.set_color(f2, b2); fputc('b', t); }
            }
            fputc('c', t);
        }
        fclose(f);
        Screen scr = shown(string(buf, n));
        free(buf);
        Cell a = cell('a', f1, b1), b = cell('b', f2 & 15 ? f2 : f1, b2 & 15 ? b2 : b1);
        b.bright_fg = (f1 | f2) & (int)Terminal::bright;   // Bold until it is reset
        if (scr.bad || scr.cells.size() != 3 || !(scr.cells[0] == a) || !(scr.cells[2] == cell('c', 0, 0)) || scr.cells[1].fg != b.fg || scr.cells[1].bg != b.bg || scr.cells[1].bright_bg != b.bright_bg)
            mc::fail("nested", "%#x on %#x, within %#x on %#x: %s", f2, b2, f1, b1, text(scr).c_str());
        mc::count();
        ++mc::sh->transitions;
    }
}

/// Kinds of output
MC_GROUP(outputs)
{
    enum Kind { PTY, FILE_, PIPE, NUL, MEM, CLOSED };
    const char* name[] = { "a terminal", "a file", "a pipe", "/dev/null", "memory", "a closed file" };
    for (int k = 0; k < 6; ++k)
        for (int err = 0; err < 2; ++err)
        {
            if (!mc::begin("output to %s, error %d before", name[k], err)) continue;
            int fds[2] = { -1, -1 };
            char* buf = nullptr; size_t n = 0;
            FILE* f = nullptr;
            switch (k)
            {
                case PTY: if (openpty(&fds[0], &fds[1], nullptr, nullptr, nullptr)) { mc::fail("harness", "no terminal"); continue; } f = fdopen(fds[1], "w"); break;
                case FILE_: f = fopen((mc::work + "/file").c_str(), "w"); break;
                case PIPE: if (pipe(fds)) continue; f = fdopen(fds[1], "w"); break;
                case NUL: f = fopen("/dev/null", "w"); break;
                case MEM: f = open_memstream(&buf, &n); break;
                case CLOSED: f = fopen((mc::work + "/file").c_str(), "w"); close(fileno(f)); break;
            }
            errno = err ? EBADF : 0;
            bool ok = true, tty = false;
            try
            {
                Terminal t(f);
                tty = t.isatty;
                fputs(t.color(Terminal::red, Terminal::blue, "x").c_str(), t);
                { auto r = t.set_color_fg(Terminal::green); fputs("y", t); }
                fflush(t);
            } catch (std::system_error& e) { ok = false; if (e.code().value() != EBADF) mc::fail("error", "%s: error %d", name[k], e.code().value()); }
            if (ok != (k != CLOSED)) mc::fail("result", "%s: %s", name[k], ok ? "no error" : "an error");
            if (ok && tty != (k == PTY)) mc::fail("tty", "%s is %sa terminal", name[k], tty ? "" : "not ");
            string got;
            if (k == PTY || k == PIPE) { char b[1000]; ssize_t r = ::read(fds[0], b, sizeof(b)); got.assign(b, r > 0 ? r : 0); }
            if (k == FILE_) got = mc::read_file(mc::work + "/file");
            if (k == MEM) got = string(buf, n);
            if (k == PTY) { if (shown(got).cells.size() != 2 || got.size() < 10) mc::fail("coloured", "a terminal gets %s", mc::show(got).c_str()); }
            else if (k != NUL && k != CLOSED && got != "xy") mc::fail("plain", "%s gets %s", name[k], mc::show(got).c_str());
            if (k == CLOSED) fclose(f); else fclose(f);
            if (fds[0] >= 0) close(fds[0]);
            free(buf);
            mc::count();
            mc::sample("%s: %s", name[k], mc::show(got).c_str());
        }
}
