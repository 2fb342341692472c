// C07: text helpers, logging and file-system helpers against straightforward models
#include "litiv/utils/platform.hpp"
#include "sched.hpp"
#include <thread>
#include <list>
namespace {
std::string rstr(vp::Gen& g, size_t maxLen, const char* alphabet) { const size_t na = strlen(alphabet), n = g.z(0, maxLen); std::string s; for(size_t k = 0; k < n; ++k) s += alphabet[g.draw(na - 1)]; return s; }
std::string esc(const std::string& s) { std::string o = "'"; for(unsigned char ch : s) { if(ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\x%02x", ch); o += b; } else o += (char)ch; } return o + "'"; }
std::vector<std::string> splitModel(const std::string& s, char d) { // pieces between delimiters; nothing after a trailing delimiter
    std::vector<std::string> v; size_t b = 0; while(b < s.size()) { size_t e = s.find(d, b); if(e == std::string::npos) { v.push_back(s.substr(b)); return v; } v.push_back(s.substr(b, e - b)); b = e + 1; } return v;
}
bool isDir(const std::string& p) { struct stat st; return stat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode); }
struct Tmp { std::string d; Tmp() { static int n = 0; d = vp::scratchDir() + "/fs_" + std::to_string(getpid()) + "_" + std::to_string(n++); mkdir(d.c_str(), 0755); }
    ~Tmp() { if(d.compare(0, 16, "/tmp/vp_scratch_") == 0) { std::string c = "rm -rf '" + d + "'"; int r = system(c.c_str()); (void)r; } } };
} // namespace
VP_SUB(split_clamp, 40000, 600000) {
    const char d = g.pick({' ', ',', ';', '\n', 'a', '\0', '/'}); const std::string alpha = std::string("ab,; /\n\t%.") ; std::string s = rstr(g, 40, alpha.c_str());
    if(g.flag(1, 6)) s.insert(g.draw(s.size()), 1, d); // also NUL bytes and guaranteed delimiters
    if(g.flag(1, 8)) s += std::string(g.z(1, 3), d); if(g.flag(1, 8)) s.insert(0, g.z(1, 3), d);
    c.note() << "s=" << esc(s) << " delim=" << (int)d; c.nontrivial(s.find(d) != std::string::npos);
    auto m = splitModel(s, d); auto v = lv::split(s, d); VP_CHECK(v == m, "split gave " << v.size() << " pieces, expected " << m.size());
    std::list<std::string> l; lv::split(s, std::back_inserter(l), d); VP_CHECK(std::vector<std::string>(l.begin(), l.end()) == m, "iterator version differs");
    std::string j; for(size_t k = 0; k < v.size(); ++k) { if(k) j += d; j += v[k]; } VP_CHECK(j == s || j + d == s, "characters lost");
    if(d == ' ') VP_CHECK(lv::split(s) == m, "default delimiter");
    size_t n = (size_t)g.edge(0, 60); char pad = g.pick({' ', '0', '*'}); std::string r = lv::clampString(s, n, pad);
    VP_CHECK(r == (s.size() > n ? std::string(s.begin(), s.begin() + n) : std::string(n - s.size(), pad) + s), "clamp to " << n << " gave " << esc(r));
}
VP_SUB(tokens, 30000, 400000) {
    std::vector<std::string> paths(g.z(0, 8)), rem(g.z(0, 3)), keep(g.z(0, 3)); for(auto& p : paths) p = rstr(g, 8, "abcAB/."); for(auto& p : rem) p = rstr(g, 3, "abcAB/."); for(auto& p : keep) p = rstr(g, 3, "abcAB/.");
    auto has = [](const std::string& s, const std::vector<std::string>& t) { for(auto& k : t) for(size_t p = 0; p + k.size() <= s.size(); ++p) if(s.compare(p, k.size(), k) == 0) return true; return false; };
    std::vector<std::string> e; for(auto& p : paths) { if(has(p, rem)) continue; if(keep.empty() || has(p, keep)) e.push_back(p); }
    for(auto& p : paths) c.note() << esc(p) << ' '; c.note() << "rm:"; for(auto& p : rem) c.note() << esc(p); c.note() << " keep:"; for(auto& p : keep) c.note() << esc(p);
    c.nontrivial(paths.size() > 1 && !e.empty() && e.size() < paths.size());
    for(auto& p : paths) VP_CHECK(lv::string_contains_token(p, rem) == has(p, rem), "token search in " << esc(p));
    auto f = paths; lv::filterFilePaths(f, rem, keep); VP_CHECK(f == e, "kept " << f.size() << " of " << paths.size() << ", expected " << e.size());
    std::string a = rstr(g, 5, "abAB01z~"), b = rstr(g, 5, "abAB01z~"), al, bl; for(char ch : a) al += (char)(ch >= 'A' && ch <= 'Z' ? ch + 32 : ch); for(char ch : b) bl += (char)(ch >= 'A' && ch <= 'Z' ? ch + 32 : ch);
    VP_CHECK(lv::compare_lowercase(a, b) == (al < bl), "compare_lowercase(" << a << "," << b << ")");
}
VP_SUB(formatting, 6000, 80000) {
    size_t n; switch(g.draw(3)) { case 0: n = g.z(0, 200); break; case 1: n = 1024 - 30 + g.z(0, 40); break; case 2: n = 2048 - 40 + g.z(0, 50); break; default: n = g.z(0, 9000); }
    std::string s; { vp::Rng r(g.seed()); for(size_t k = 0; k < n; ++k) s += (char)r.range(33, 126); }
    const int iv = (int)g.edge(INT_MIN, INT_MAX); const double dv = g.real(-1e6, 1e6); const size_t zv = (size_t)g.draw(UINT64_MAX);
    c.note() << "len=" << n << " i=" << iv << " d=" << dv << " z=" << zv; c.nontrivial(n > 900);
    std::vector<char> buf(n + 200); const char* fmt = g.pick({"%s", "%s|%d", "%s|%d|%1.6f|%zu%%"});
    snprintf(buf.data(), buf.size(), fmt, s.c_str(), iv, dv, zv); const std::string e(buf.data());
    std::string r = lv::putf(fmt, s.c_str(), iv, dv, zv); VP_CHECK(r == e, "putf returned " << r.size() << " characters, expected " << e.size());
    std::ostringstream os; lv::safe_print(os, fmt, s.c_str(), iv, dv, zv); VP_CHECK(os.str() == e, "safe_print wrote " << os.str().size() << " characters, expected " << e.size());
    std::ostringstream o2; lv::safe_print(e, o2); VP_CHECK(o2.str() == e, "templated safe_print");
    // errors carry their text verbatim and their arguments formatted
    auto what = [](const std::function<void()>& f) { try { f(); } catch(const lv::Exception& x) { return std::string(x.what()); } return std::string("nothing thrown"); };
    const int nStep = 3; const std::string pct = "100%n %s %d of " + s.substr(0, 300);
    std::string w = what([&]() { lvAssert_((iv % nStep) == 17, pct); }); VP_CHECK(w.find(pct) != std::string::npos && w.find("(iv % nStep) == 17") != std::string::npos, "assertion text: " << esc(w));
    w = what([&]() { lvAssert((iv % nStep) == 17); }); VP_CHECK(w.find("(iv % nStep) == 17") != std::string::npos, "assertion text: " << esc(w));
    w = what([&]() { lvAssert__((iv % nStep) == 17, "v=%d s=%s", iv, s.c_str()); }); VP_CHECK(w.find("v=" + std::to_string(iv) + " s=" + s + "]") != std::string::npos && w.find("(iv % nStep) == 17") != std::string::npos, "formatted assertion text: " << esc(w.substr(0, 300)));
    w = what([&]() { lvError(pct); }); VP_CHECK(w.find(pct) != std::string::npos, "error text: " << esc(w));
    w = what([&]() { lvError_("%s-%zu", s.c_str(), zv); }); VP_CHECK(w.find(s + "-" + std::to_string(zv)) != std::string::npos, "formatted error text");
    lvAssert_(nStep == 3, "fine"); lvAssert(nStep == 3); lvAssert__(nStep == 3, "%d", 1);
}
VP_SUB_SCHED(log_threads, 300, 6000, 60) { // messages written from several threads stay whole; the verbosity decides
    const int nT = g.n(2, 5), it = g.n(1, 20); const int verb = g.n(0, 3); c.note() << "threads=" << nT << " msgs=" << it << " verbosity=" << verb; c.nontrivial();
    std::ostringstream os; lv::setVerbosity(verb); sched::Perturb p(g); std::vector<std::thread> th;
    for(int t = 0; t < nT; ++t) th.emplace_back([&, t]() { for(int k = 0; k < it; ++k) {
        std::string body((size_t)(k * 97 % 1500), (char)('a' + t));
        if(k % 3 == 0) lv::safe_print(os, "<%d:%s:%d>\n", t, body.c_str(), k); else if(k % 3 == 1) lv::safe_print("<" + std::to_string(t) + ":" + body + ":" + std::to_string(k) + ">\n", os);
        else lv::ostream_guard<std::ostream>(os, k % 4) << "<" << t << ":" << body << ":" << k << ">" << std::endl; } });
    for(auto& t : th) t.join(); lv::setVerbosity(1);
    std::vector<int> next(nT, 0); std::istringstream is(os.str()); std::string l; 
    auto shown = [&](int k) { return k % 3 != 2 || verb >= k % 4; };
    while(std::getline(is, l)) { int t = l.size() > 1 ? l[1] - '0' : -1; VP_CHECK(t >= 0 && t < nT, "mixed-up line " << l.substr(0, 60)); while(next[t] < it && !shown(next[t])) ++next[t]; int k = next[t]++; VP_CHECK(k < it, "extra line");
        VP_CHECK(l == "<" + std::to_string(t) + ":" + std::string((size_t)(k * 97 % 1500), (char)('a' + t)) + ":" + std::to_string(k) + ">", "line of thread " << t << " message " << k << " damaged: " << l.substr(0, 80)); }
    for(int t = 0; t < nT; ++t) { while(next[t] < it && !shown(next[t])) ++next[t]; VP_CHECK(next[t] == it, "messages of thread " << t << " lost"); }
}
VP_SUB(directories, 500, 8000) {
    Tmp t; std::set<std::string> files, dirs, all; const int n = g.n(0, 14);
    static const char* names[] = {"a.png", "b.png", "B.png", "img 10.png", "img 2.png", ".hidden", "Thumbs.db", "thumbs.db", "x", "xx", "sub", "Sub", "sub.d", "\xc3\xa9t\xc3\xa9.bmp", "-n", "a..b", "...", "in000001.jpg", "in000010.jpg", "z z"};
    for(int k = 0; k < n; ++k) {
        std::string nm = names[g.draw(sizeof(names) / sizeof(*names) - 1)]; if(g.flag(1, 3)) nm += std::to_string(g.draw(99)); if(all.count(nm)) continue; std::string p = t.d + "/" + nm; int kind = (int)g.draw(6); all.insert(nm); c.note() << nm << ":" << kind << ' ';
        switch(kind) {
            case 0: case 1: case 2: { std::ofstream f(p); f << "x"; files.insert(nm); break; }
            case 3: mkdir(p.c_str(), 0755); { std::ofstream f(p + "/inner.png"); } dirs.insert(nm); break;
            case 4: mkdir(p.c_str(), 0755); mkdir((p + "/deeper").c_str(), 0755); dirs.insert(nm); break;
            case 5: if(symlink(g.flag() ? "/tmp" : "nowhere-at-all", p.c_str()) == 0 && isDir(p)) dirs.insert(nm); break;
            default: mkfifo(p.c_str(), 0600); // neither a file nor a directory
        }
    }
    files.erase("Thumbs.db"); c.nontrivial(files.size() > 1 && !dirs.empty());
    const std::string base = t.d + (g.flag() ? "/" : ""); const std::string pre = t.d + "/";
    std::vector<std::string> ef, ed; for(auto& s : files) ef.push_back(pre + s); for(auto& s : dirs) ed.push_back(pre + s);
    std::sort(ef.begin(), ef.end()); std::sort(ed.begin(), ed.end());
    auto f = lv::getFilesFromDir(base), d = lv::getSubDirsFromDir(base);
    VP_CHECK(f == ef, "listed " << f.size() << " files, expected " << ef.size() << (f.empty() ? "" : " first " + f[0])); VP_CHECK(d == ed, "listed " << d.size() << " directories, expected " << ed.size());
    for(auto& s : ef) VP_CHECK(lv::checkIfExists(s), s); for(auto& s : ed) VP_CHECK(lv::checkIfExists(s), s);
    VP_CHECK(lv::getFilesFromDir(t.d + "/none").empty() && lv::getSubDirsFromDir(t.d + "/none").empty() && !lv::checkIfExists(t.d + "/none"), "missing directory");
    if(!ef.empty()) VP_CHECK(!lv::createDirIfNotExist(ef[0]) && !isDir(ef[0]), "directory in place of a file");
    if(!ed.empty()) VP_CHECK(lv::createDirIfNotExist(ed[0]) && isDir(ed[0]), "existing directory");
    VP_CHECK(!lv::createDirIfNotExist(t.d + "/none/deep") && !lv::checkIfExists(t.d + "/none"), "parent missing");
    VP_CHECK(lv::createDirIfNotExist(t.d + "/fresh" + (g.flag() ? "/" : "")) && isDir(t.d + "/fresh"), "fresh directory");
    VP_CHECK(lv::getSubDirsFromDir(base).size() == ed.size() + 1 && lv::getFilesFromDir(base) == ef, "listing after creating a directory");
    std::string s = rstr(g, 6, "ab./\\ "); VP_CHECK(lv::addDirSlashIfMissing(s) == (s.empty() ? "" : (s.back() == '/' || s.back() == '\\') ? s : s + "/"), "addDirSlashIfMissing(" << esc(s) << ")");
}
VP_SUB(preallocated_files, 2000, 30000) {
    Tmp t; const std::string p = t.d + "/f.bin"; std::string old; const bool pre = g.flag(); if(pre) { vp::Rng r(g.seed()); old.resize(g.z(0, 3000)); for(auto& ch : old) ch = (char)r.below(256); std::ofstream(p, std::ios::binary) << old; }
    const size_t n = (size_t)g.edge(0, 5000); const bool zero = g.flag(); std::string w = rstr(g, 50, "xyz"); c.note() << "existing=" << (pre ? (int)old.size() : -1) << " prealloc=" << n << " zero=" << zero << " write=" << w.size(); c.nontrivial(n > 0);
    { std::fstream f = lv::createBinFileWithPrealloc(p, n, zero); VP_CHECK(f.is_open() && f.good(), "stream"); VP_CHECK(f.tellp() == std::streampos(0), "write position"); f.write(w.data(), (std::streamsize)w.size()); VP_CHECK(f.good(), "write"); }
    std::ifstream f(p, std::ios::binary); std::stringstream ss; ss << f.rdbuf(); std::string s = ss.str();
    VP_CHECK(s.size() == std::max(std::max(n, old.size()), w.size()), "file has " << s.size() << " bytes");
    VP_CHECK(s.compare(0, w.size(), w) == 0, "written bytes"); for(size_t k = w.size(); k < old.size(); ++k) VP_CHECK(s[k] == old[k], "existing byte " << k << " changed"); for(size_t k = std::max(w.size(), old.size()); zero && k < s.size(); ++k) VP_CHECK(s[k] == 0, "byte " << k << " not zero");
}
VP_MAIN("strings contain the delimiter, lists are partly filtered, formatted text passes the internal buffer size, directories mix several files with directories")
