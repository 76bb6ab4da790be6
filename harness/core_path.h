// Paths: every string up to a length.
static string norm(const string& s, int sep) { str<280> t(s.c_str()); path::normalise(t, sep); return t.c_str(); }

// What a path that is neither UNC nor in a device namespace refers to: drive, rooted, components.
struct meaning
{
    string drive; bool rooted = false; vector<string> comp;
    bool operator == (const meaning& o) const { return drive == o.drive && rooted == o.rooted && comp == o.comp; }
    string show() const { string t = "[" + drive + (rooted ? " rooted" : "") + "]"; for (auto& c : comp) t += " " + c; return t; }
};
static meaning what(const string& s)
{
    meaning m;
    size_t i = 0;
    if (s.size() >= 2 && isalpha((unsigned char)s[0]) && s[1] == ':') { m.drive = s.substr(0, 2); i = 2; }
    m.rooted = i < s.size() && is_sep(s[i]);
    string cur;
    for (; i <= s.size(); ++i)
    {
        if (i < s.size() && !is_sep(s[i])) { cur += s[i]; continue; }
        if (cur == "..")
        {
            if (!m.comp.empty() && m.comp.back() != "..") m.comp.pop_back();
            else if (!m.rooted) m.comp.push_back(cur);
        }
        else if (!cur.empty() && cur != ".") m.comp.push_back(cur);
        cur.clear();
    }
    return m;
}
static bool path_case(const string& s)
{
    mc::current(s);
    mc::stat("evaluations");
    auto fail = [&](const char* key, const string& m) { mc::violation(key, s, m); return false; };
    const bool plain = !(s.size() >= 2 && is_sep(s[0]) && is_sep(s[1]));
    for (char sep : { '/', '\\' })
    {
        const string n = norm(s, sep);
        if (norm(n, sep) != n) return fail("normalise again", "normalises to \"" + n + "\" and that to \"" + norm(n, sep) + "\"");
        if (n.size() > s.size()) return fail("normalise grows", "normalises to \"" + n + "\"");
        if (!plain && s.size() > 3 && s[2] == '.' && is_sep(s[3]))
        {
            // Device namespace: only separators change.
            string t = s.substr(0, 3);
            for (size_t i = 3; i < s.size(); ++i) { if (is_sep(s[i])) { if (!is_sep(s[i - 1])) t += sep; } else t += s[i]; }
            if (n != t) return fail("device path", "normalises to \"" + n + "\" instead of \"" + t + "\"");
        }
        if (s.size() > 2 && !plain && !is_sep(s[2]) && s[2] != '.' && s[2] != '?')
        {
            // \\\\server\\share and what is below it: .. does not leave the share.
            auto unc = [](const string& u) {
                size_t i = 2;
                string server, share;
                while (i < u.size() && !is_sep(u[i])) server += u[i++];
                while (i < u.size() && is_sep(u[i])) ++i;
                while (i < u.size() && !is_sep(u[i])) share += u[i++];
                return "//" + server + "/" + share + " " + what("/" + u.substr(i)).show();
            };
            if (unc(n) != unc(s)) return fail("unc meaning", "normalises to \"" + n + "\", which is " + unc(n) + " instead of " + unc(s));
        }
        if (!plain) continue;
        meaning a = what(s), b = what(n);
        if (!(a == b)) return fail("normalise meaning", "normalises to \"" + n + "\", which is " + b.show() + " instead of " + a.show());
        // No dots but leading .., no repeated separators, only the one separator.
        string want = a.drive;
        if (a.rooted) want += sep;
        for (size_t i = 0; i < a.comp.size(); ++i) { if (i) want += sep; want += a.comp[i]; }
        if (n != want && n != want + sep) return fail("normal form", "normalises to \"" + n + "\" instead of \"" + want + "\"");
    }
    {
        string t = s; str<280> u(s.c_str());
        for (char& c : t) if (is_sep(c)) c = '/';
        path::normalise_separators(u, '/');
        if (t != u.c_str()) return fail("separators", "separators are changed to \"" + string(u.c_str()) + "\"");
    }
    str<> dir, name, base, joined, drive;
    path::get_directory(s.c_str(), dir);
    {
        str<> d2(s.c_str());
        path::get_directory(d2);
        if (!d2.equals(dir.c_str())) return fail("directory in place", "the directory is \"" + string(d2.c_str()) + "\" in place");
    }
    path::get_name(s.c_str(), name);
    if (s.size() < name.length() || s.compare(s.size() - name.length(), string::npos, name.c_str())) return fail("name", "the name is \"" + string(name.c_str()) + "\"");
    if (strpbrk(name.c_str(), "/\\")) return fail("name", "the name has a separator: \"" + string(name.c_str()) + "\"");
    if (s.compare(0, dir.length(), dir.c_str())) return fail("directory", "the directory is \"" + string(dir.c_str()) + "\"");
    path::join(dir.c_str(), name.c_str(), joined);
    if (plain)
    {
        // Splitting and joining again refers to the same thing.
        if (!(what(joined.c_str()) == what(s))) return fail("split and join", "\"" + string(dir.c_str()) + "\" and \"" + name.c_str() + "\" join to \"" + joined.c_str() + "\"");
        mc::stat("distinct_nontrivial", name.empty() || dir.empty() ? 0 : 1);
        const meaning w = what(s);
        const bool has_drive = path::get_drive(s.c_str(), drive);
        if (has_drive != !w.drive.empty() || (has_drive && w.drive != drive.c_str())) return fail("drive", "the drive is \"" + string(drive.c_str()) + "\"");
        if (path::is_rooted(s.c_str()) != w.rooted) return fail("rooted", w.rooted ? "not rooted" : "rooted");
        size_t b = w.drive.size();
        const bool root = s.find_first_not_of("/\\", b) == string::npos;
        if (path::is_root(s.c_str()) != root) return fail("root", root ? "not a root" : "a root");
    }
    {
        const char* ext = path::get_extension(s.c_str());
        str<> e2;
        const bool has = path::get_extension(s.c_str(), e2);
        if (has != !!ext || (ext && !e2.equals(ext))) return fail("extension", "the two ways to get the extension differ");
        if (ext)
        {
            path::get_base_name(s.c_str(), base);
            if (plain && string(base.c_str()) + ext != name.c_str()) return fail("base name", "\"" + string(base.c_str()) + "\" and \"" + ext + "\" do not make \"" + name.c_str() + "\"");
            if (!ext[1] || strchr(ext + 1, '.') || ext[0] != '.') return fail("extension", "the extension is \"" + string(ext) + "\"");
        }
    }
    // Going up ends at a root, and going back down arrives at the same place.
    str<> up(s.c_str());
    str<> child;
    vector<string> kids;
    int n = 0;
    while (path::to_parent(up, &child))
    {
        if (strpbrk(child.c_str(), "/\\")) return fail("parent", "a child has a separator: \"" + string(child.c_str()) + "\"");
        kids.push_back(child.c_str());
        if (++n > int(s.size()) + 2) return fail("parent", "going up does not end");
    }
    if (!path::is_root(up.c_str())) return fail("parent", "going up ends at \"" + string(up.c_str()) + "\", which is not a root");
    if (plain)
    {
        for (size_t i = kids.size(); i--;) if (!kids[i].empty()) path::append(up, kids[i].c_str());
        if (!(what(up.c_str()) == what(s))) return fail("up and down", "up and down again gives \"" + string(up.c_str()) + "\"");
    }
    {
        str<> strip(s.c_str());
        path::maybe_strip_last_separator(strip);
        if (plain && !(what(strip.c_str()) == what(s))) return fail("strip", "without the separator at the end it is \"" + string(strip.c_str()) + "\"");
        if (plain && strip.length() && is_sep(strip.c_str()[strip.length() - 1]) && !path::is_root(strip.c_str())) return fail("strip", "a separator is left at the end");
    }
    return true;
}
static void path_all()
{
    mc::ull serial = 0;
    auto run = [&](const string& s) {
        if (mc::mine(serial++)) { path_case(s); if (s.size() == 7) mc::sample(s); }
        return !mc::enough();
    };
    strings("ab./\\", 0, mc::thorough() ? 9 : 8, run);
    for (const char* prefix : { "\\\\?\\", "\\\\.\\", "\\\\?\\UNC\\", "//", "\\\\?\\c:", "\\\\a\\b" })
        strings("ab./\\", 0, mc::thorough() ? 7 : 6, [&](const string& s) { return run(prefix + s); });
    for (const char* prefix : { "c:", "Z:\\", "a/", ".a/", "../" })
        strings("ab. /", 0, mc::thorough() ? 8 : 7, [&](const string& s) { return run(prefix + s); });
}
