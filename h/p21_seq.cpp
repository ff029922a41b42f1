// P21: all argument lists over a token alphabet, for the library's options, the tools' option parser and the client program itself.
#include "seq.hpp"
#include "ref.hpp"
#include <internal/global_timeline.h>
#include <hawktracer/global_timeline.h>
#include <hawktracer/listeners/file_dump_listener.h>
#include <hawktracer/client_utils/command_line_parser.hpp>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <memory>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>

struct Args { std::vector<std::string> s; std::vector<char*> p; void done() { for (auto& x : s) p.push_back(&x[0]); p.push_back(nullptr); } int argc() { return s.size(); } char** argv() { return p.data(); } std::string str() { std::string r; for (auto& x : s) r += " '" + x + "'"; return r; } };
struct Capture { int fd, save; Capture() { fflush(stdout); save = dup(1); fd = memfd_create("o", 0); dup2(fd, 1); } size_t end() { fflush(stdout); dup2(save, 1); close(save); size_t n = lseek(fd, 0, SEEK_END); close(fd); return n; } };
// ---- library
static const char OPT[] = "--ht-global-timeline-buffer-size";
struct V { const char* s; bool ok; size_t v; };
static const V tok[] = {{"foo", false, 0}, {OPT, false, 0}, {"4096", true, 4096}, {"0", true, 0}, {"18446744073709551616", false, 0}, {"12abc", false, 0}, {"-5", false, 0}, {"", false, 0},
    {"--ht-global-timeline-buffer-sizes", false, 0}, {"77", true, 77}, {"18446744073709551615", true, ~0ul}, {"0x10", false, 0}, {"--ht-global-timeline-buffer-size=5", false, 0}, {"99999999999999999999999999", false, 0}, {"--ht-help", false, 0}, {"-", false, 0}, {"1 2", false, 0}};
static void s_library()
{
    Args a; a.s.push_back(seq::choose(2) ? OPT : "prog"); int len = seq::thorough() ? 5 : 4, nt = seq::thorough() ? 14 : 17;
    for (int i = 0; i < len; i++) { int t = seq::choose(nt + 1); if (!t) break; a.s.push_back(tok[t - 1].s); }
    a.done(); seq::note("%s", a.str().c_str());
    size_t want = 1024; bool report = false, help = false;
    for (size_t i = 1; i < a.s.size(); i++)
    {
        if (a.s[i] == "--ht-help") { help = true; break; }
        if (a.s[i] != OPT) continue;
        if (i + 1 >= a.s.size()) { report = true; break; }
        i++; const V* v = nullptr; for (auto& x : tok) if (a.s[i] == x.s) v = &x;
        if (v->ok) want = v->v; else report = true;
    }
    ht_global_timeline_set_buffer_size(1024);
    if (help)
    {
        int pp[2]; if (pipe(pp)) return; fflush(stdout);
        pid_t p = fork(); if (!p) { dup2(pp[1], 1); ht_init(a.argc(), a.argv()); _exit(55); } close(pp[1]); std::string out; char buf[4096]; ssize_t k; while ((k = read(pp[0], buf, sizeof buf)) > 0) out.append(buf, k); size_t n = out.size(); close(pp[0]); int st; waitpid(p, &st, 0);
        SEQ_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the help option did not end the program (status %d)", st); SEQ_CHECK(n > 0, "no help was printed"); SEQ_CHECK(out.find(OPT) != std::string::npos && out.find("--ht-help") != std::string::npos, "the help does not name every option: %s", out.c_str());
    }
    else
    {
        Capture c; ht_init(a.argc(), a.argv()); size_t printed = c.end(); size_t got = ht_global_timeline_get_buffer_size(); ht_deinit();
        SEQ_CHECK(got == want, "buffer size is %zu, should be %zu", got, want); SEQ_CHECK(!report || printed, "a bad or missing value was not reported");
    }
    seq::step(); Bytes o; put(o, want); put(o, report); put(o, help); seq::outcome(o);
}
static int ncalls; static void cb(TEventPtr, size_t, HT_Boolean, void*) { ncalls++; }
static void s_effect()   // the option determines how much the global timeline of a new thread buffers
{
    int size = seq::choose(seq::thorough() ? 300 : 130); Args a; a.s = {"prog", "x", OPT, std::to_string(size), "y"}; a.done(); bool nested = seq::choose(2); if (nested) ht_init(0, nullptr); ht_init(a.argc(), a.argv()); ht_EvTiny_register_event_klass();
    std::thread th([&] { ncalls = 0; HT_Timeline* t = ht_global_timeline_get(); SEQ_CHECK(t, "no timeline"); ht_timeline_register_listener(t, cb, nullptr); int per = size / 21; for (int i = 1; i <= 40; i++) { HT_TIMELINE_PUSH_EVENT(t, EvTiny, 1); int want = per == 0 ? i : (i - 1) / per; SEQ_CHECK(ncalls == want, "with buffer size %d, %d notifications after %d events instead of %d", size, ncalls, i, want); } ht_timeline_flush(t); ht_timeline_unregister_all_listeners(t); });
    th.join(); ht_deinit(); if (nested) ht_deinit(); ht_global_timeline_set_buffer_size(1024); seq::step(); seq::outcome(&size, sizeof size);
}
static void s_none() { int k = seq::choose(3); char prog[] = "p"; char* v[] = {prog, nullptr}; ht_global_timeline_set_buffer_size(55); if (k == 0) ht_init(0, nullptr); else if (k == 1) ht_init(1, v); else { char* w[] = {nullptr}; ht_init(0, w); } SEQ_CHECK(ht_global_timeline_get_buffer_size() == 55, "setting changed"); ht_deinit(); ht_global_timeline_set_buffer_size(1024); seq::outcome(&k, sizeof k); }
// ---- option parser of the tools
using HawkTracer::ClientUtils::CommandLineParser;
struct Quiet { std::streambuf* b; std::ostringstream o; Quiet() { b = std::cerr.rdbuf(o.rdbuf()); } ~Quiet() { std::cerr.rdbuf(b); } };
static void s_parser()
{
    static const char* prefixes[] = {"--", "-", "+x"}; std::string px = prefixes[seq::choose(3)]; int regs = seq::choose(4); Quiet q; CommandLineParser p(px, "app");
    std::map<std::string, std::pair<bool, bool>> known; auto reg = [&](const char* n, bool flag, bool mand) { p.register_option(n, CommandLineParser::OptionInfo(flag, mand, "help")); if (!(flag && mand)) known.insert({n, {flag, mand}}); };
    reg("a", false, false); if (regs & 1) reg("c", false, true); reg("b", true, false); if (regs & 2) { reg("bc", false, false); reg("m", true, true); reg("a", true, false); } if (regs == 3) reg("d", false, true);
    Args a; a.s.push_back("prog"); static const char* T[] = {"P" "a", "P" "b", "P" "c", "val", "", "P", "P" "bc", "P" "A", "a", "P" "m", "P" "d", "-a"}; int len = seq::thorough() ? 6 : 5;
    for (int i = 0; i < len; i++) { int t = seq::choose(seq::thorough() ? 11 : 13); if (!t) break; std::string s = T[t - 1]; if (s[0] == 'P') s = px + s.substr(1); a.s.push_back(s); }
    a.done(); seq::note("prefix %s registered %d:%s", px.c_str(), regs, a.str().c_str());
    std::map<std::string, std::string> val; bool ok = true;
    for (size_t i = 1; i < a.s.size() && ok; i++)
    {
        const std::string& s = a.s[i]; if (s.size() <= px.size() || s.compare(0, px.size(), px) != 0 || !known.count(s.substr(px.size()))) { ok = false; break; }
        std::string n = s.substr(px.size()), v; if (!known[n].first) { if (i + 1 >= a.s.size()) { ok = false; break; } v = a.s[++i]; } val.insert({n, v});
    }
    if (ok) for (auto& k : known) if (k.second.second && !val.count(k.first)) ok = false;
    bool r = p.parse(a.argc(), a.argv()); SEQ_CHECK(r == ok, "the list was %s", r ? "accepted" : "refused");
    if (ok) for (auto& k : known) { SEQ_CHECK(p.has_value(k.first) == (val.count(k.first) > 0), "option %s %s", k.first.c_str(), val.count(k.first) ? "was given but is not there" : "was not given but is there"); std::string got = p.get_value(k.first, "dflt"), want = val.count(k.first) ? val[k.first] : "dflt"; SEQ_CHECK(got == want, "option %s has value '%s', should be '%s'", k.first.c_str(), got.c_str(), want.c_str()); }
    std::ostringstream h; p.print_help(h); for (auto& k : known) SEQ_CHECK(h.str().find(px + k.first) != std::string::npos, "help does not mention %s", k.first.c_str());
    seq::step(); Bytes o; put(o, ok); for (auto& v : val) o += v.first + "=" + v.second; seq::outcome(o);
}
// ---- the client program
int ht_client_main(int, char**);
static void make_trace(const std::string& path) { ht_init(0, nullptr); HT_Timeline* t = ht_timeline_create(0, HT_FALSE, HT_TRUE, nullptr, nullptr); ht_file_dump_listener_register(t, path.c_str(), 100, nullptr); HT_DECL_EVENT(HT_CallstackIntEvent, e); e.base.base.timestamp = 5000; e.base.base.id = 1; e.base.duration = 7000; e.base.thread_id = 3; e.label = 17; ht_timeline_push_event(t, (HT_Event*)&e); ht_timeline_destroy(t); ht_deinit(); }
static int run_client(Args& a) { fflush(0); pid_t p = fork(); if (!p) { int n = open("/dev/null", O_RDWR); dup2(n, 0); dup2(n, 1); dup2(n, 2); alarm(20); int r = ht_client_main(a.argc(), a.argv()); fflush(0); _exit(r); } int st; waitpid(p, &st, 0); SEQ_CHECK(WIFEXITED(st) && WEXITSTATUS(st) != 77, "the client died (status %d)", st); return WEXITSTATUS(st); }
static std::string slurp1(const std::string& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static bool exists(const std::string& p) { struct stat s; return stat(p.c_str(), &s) == 0; }
static void check_out(std::string out, const std::string& fmt, const std::string& label)
{
    if (fmt == "callgrind") out += ".3";   // one file per thread
    SEQ_CHECK(exists(out), "the output file '%s' was not written", out.c_str()); std::string c = slurp1(out);
    if (fmt == "chrome-tracing") SEQ_CHECK(c.compare(0, 17, "{\"traceEvents\": [") == 0 && c.find(label) != std::string::npos, "output is not the requested Chrome trace: %s", c.c_str());
    else SEQ_CHECK(c.find("fn=") != std::string::npos && c.find(label) != std::string::npos, "output is not the requested callgrind file: %s", c.c_str());
}
static void s_client()
{
    std::string d = seq::scratch(), src = d + "/in.htdump", o1 = d + "/out1", o2 = d + "/out2", m1 = d + "/map1", m2 = d + "/map2"; if (!exists(src)) { make_trace(src); std::ofstream(m1) << "native LabelFromMap 17\n"; std::ofstream(m2) << "native OtherMap 17\n"; }
    for (auto& o : {o1, o2}) { unlink(o.c_str()); unlink((o + ".3").c_str()); }
    std::vector<std::vector<std::string>> items = {{"--source", src}, {"--output", o1}, {"--output", o2}, {"--format", "chrome-tracing"}, {"--format", "callgrind"}, {"--format", "nope"}, {"--map", m1}, {"--map", m2}, {"--map", m2 + "," + m1}, {"--help"}, {"--what", "x"}, {"--source", d + "/missing"}, {"--output"}};
    Args a; a.s.push_back("hawktracer-converter"); std::map<std::string, std::string> v; bool bad = false; int len = seq::thorough() ? 4 : 3;
    // source and output always appear somewhere, the rest is free
    int lead = seq::choose(3); if (lead != 1) { a.s.push_back("--source"); a.s.push_back(src); v["--source"] = src; } if (lead != 2) { a.s.push_back("--output"); a.s.push_back(o1); v["--output"] = o1; }
    for (int i = 0; i < len; i++) { int t = seq::choose(items.size() + 1); if (!t) break; auto& it = items[t - 1]; for (auto& x : it) a.s.push_back(x); if (it[0] == "--what" || it[0] == "--help") bad = true; if (it.size() == 1 && it[0] == "--output") { bad = true; if (i + 1 < len) { seq::discard(); } break; } if (it.size() == 2) v.insert({it[0], it[1]}); }
    if (!v.count("--output") && !bad) { a.s.push_back("--output"); a.s.push_back(o2); v["--output"] = o2; }
    a.done(); seq::note("%s", a.str().c_str());
    std::string fmt = v.count("--format") ? v["--format"] : "chrome-tracing"; if (!v.count("--source") || v["--source"] != src || fmt == "nope") bad = true;
    int rc = run_client(a); SEQ_CHECK((rc != 0) == bad, "the client returned %d", rc);
    if (!bad) { std::string map = v.count("--map") ? v["--map"] : ""; check_out(v["--output"], fmt, map == "" ? "17" : map == m2 ? "OtherMap" : "LabelFromMap"); std::string other = v["--output"] == o1 ? o2 : o1; SEQ_CHECK(!exists(other) && !exists(other + ".3"), "a file that was not asked for was written"); }
    seq::step(); Bytes o; put(o, bad); o += fmt; seq::outcome(o);
}
static void s_client_output()   // every length of the output path, with and without time conversions
{
    if (chdir(seq::scratch().c_str())) return; std::string d = ".", src = d + "/in.htdump"; if (!exists(src)) make_trace(src);   // relative, so that lengths do not depend on the scratch directory
    int len = 1 + seq::choose(seq::thorough() ? 240 : 140), conv = seq::choose(3); std::string name(len, 'n'), want = name; if (conv == 1) { name += "%%"; want += "%"; } if (conv == 2) { name = "%%" + name; want = "%" + want; }
    Args a; a.s = {"c", "--source", src, "--output", d + "/" + name}; a.done(); int rc = run_client(a); SEQ_CHECK(rc == 0, "the client returned %d for an output path of %zu characters", rc, a.s[4].size()); check_out(d + "/" + want, "chrome-tracing", "17"); unlink((d + "/" + want).c_str()); seq::step(); seq::outcome(want);
}
static const seq::Scenario sc[] = {{"library_lists", s_library, 0, false}, {"library_effect", s_effect, 0, false}, {"library_none", s_none, 0, false}, {"parser_lists", s_parser, 0, false}, {"client_lists", s_client, 0, false}, {"client_output_path", s_client_output, 0, false}};
int main(int argc, char** argv) { return seq::main(argc, argv, sc, 6); }
