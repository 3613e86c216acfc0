// Names of files: what the properties say of a file does not depend on how it is called or reached.
#pragma once
#include "model.hpp"
#include <algorithm>
#include <dirent.h>
#include <fcntl.h>
#include <linux/capability.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <unistd.h>

namespace m {

// names of every length, with every kind of character, relative, absolute, not normalized, deep, through links
struct Place
{
    Str name; // to be given to the library
    Str file; // where that is
    std::vector<Str> dirs;
    int cwd = -1;
    Str link;

    Place() { pick(); }
    Place(const Place&) = delete;
    ~Place()
    {
        unlink(file.c_str());
        if (!link.empty()) unlink(link.c_str());
        for (size_t i = dirs.size(); i-- > 0;) rmdir(dirs[i].c_str());
        if (cwd >= 0)
        {
            if (fchdir(cwd)) abort();
            close(cwd);
        }
    }
    void enter(const Str& d)
    {
        cwd = open(".", O_RDONLY | O_DIRECTORY);
        if (cwd < 0 || chdir(d.c_str())) abort();
    }
    void dir(const Str& d)
    {
        mkdir(d.c_str(), 0700);
        dirs.push_back(d);
    }
    void pick()
    {
        static const char* const odd[] = {
            ".hidden", "with space", " leading", "trailing ", "tab\tname", "new\nline", "per%cent%s%n%d.mp3", "quote'\"", "back\\slash", "\xc3\xbcnic\xc3\xb6"
            "de", "\xff\xfe", "\x80\xff\x01", "-dash", "*?[x]{y}", "name.mp3", "NAME.MP3", "f.tmp", "f~", "f.bak", "f.new", "..f", "f..", "$HOME", "`ls`", "a;b", "a|b", "c:d",
            "r+b", "tmpfile", "f.mp3.tmp", "~", "#f#", "&", "ID3", "TAG", "a.mp2", "a.mp1", "a.mpga", "a.mpeg",
            "a.mp4", "a.m4a", "a.m4b", "a.m4r", "a.aac", "a.adts", "a.ogg", "a.oga", "a.opus", "a.spx", "a.flac", "a.FLAC", "a.wav", "a.WAV", "a.wave", "a.aif", "a.aiff", "a.AIFF", "a.dsf", "a.dff",
            "a.wma", "a.asf", "a.ape", "a.wv", "a.mpc", "a.tta", "a.ac3", "a.dts", "a.mka", "a.webm", "a.avi", "a.mov", "a.au", "a.mid", "a.txt", "a.jpg", "a.jpeg", "a.png", "a.gif", "a.id3", "a.tag",
            "a.bin", "a.dat", "a.tmp.mp3", "a.mp3.bak", "a.part", "a.crdownload", "a.lock", "a.", ".mp3", "mp3", "a.Mp3", "a.mP3", "a.exe", "a.zip", "a.gz", "a.cue", "a.m3u", "a.ini", "con", "nul",
            "NUL.mp3", "aux", "lost+found", "core", "-", "--", "-.mp3", "0", "1", "stdin", "stdout", "pipe", "CON", "desktop.ini", ".DS_Store", "._a.mp3", "a.mp3~", ".a.mp3.swp", "01 - a.mp3",
            "a (1).mp3", "a_v2.mp3", "a v1.mp3", "Track01.mp3", "http:", "file:", "a,b.mp3", "a=b", "a:b:c", "%00", "%2e%2e", "\xe2\x80\xae.mp3", "\xef\xbb\xbf.mp3", "a.id3v2", "untagged.mp3",
            "readonly.mp3", "old.mp3", "test", "test.mp3", "edited.mp3", "file.mp3", "audio.mp3", "song.mp3", "music.mp3"};
        const int n_odd = sizeof odd / sizeof *odd;
        static const int deep[] = {200, 254, 255, 256, 257, 258, 259, 260, 261, 262, 300, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4093, 4094, 4095};
        const int n_deep = sizeof deep / sizeof *deep;
        int k = mc::choose(n_odd + 255 + n_deep + 11);
        if (k < n_odd) file = name = path(odd[k]);
        else if ((k -= n_odd) < 255) file = name = path(Str(k + 1, 'n').c_str()); // every length of a name
        else if ((k -= 255) < n_deep)
        {
            // every length of a path that could be a limit
            Str p = mc::scratch();
            size_t n = deep[k];
            if (p.size() + 10 >= n) n = p.size() + 12;
            while (n - p.size() > 250) dir(p += "/" + Str(std::min<size_t>(200, n - p.size() - 20), 'd'));
            p += "/" + Str(n - p.size() - 1, 'f');
            file = name = p;
        }
        else
        {
            k -= n_deep;
            file = path("f");
            Str sub = path("sub");
            switch (k)
            {
                case 0: enter(mc::scratch()); name = "f"; break;
                case 1: enter(mc::scratch()); name = "./f"; break;
                case 2: enter(mc::scratch()); dir(sub); name = "sub/../f"; break;
                case 3: dir(sub); enter(sub); name = "../f"; break;
                case 4: name = mc::scratch() + "//f"; break;
                case 5: name = mc::scratch() + "/./f"; break;
                case 6: dir(sub); file = name = sub + "/f"; break;
                case 7: link = name = path("link"); if (symlink("f", name.c_str())) abort(); break;
                case 8: link = name = path("link"); if (symlink(file.c_str(), name.c_str())) abort(); break;
                case 9: dir(sub); link = path("dlink"); if (symlink("sub", link.c_str())) abort(); file = sub + "/f"; name = link + "/f"; break;
                case 10: dir(sub); enter(sub); file = sub + "/f"; name = "f"; break;
            }
        }
        mc::op("name of %zu characters [%s]", name.size(), show(name, 80).c_str());
    }
};

// things that are not files with data, by name; none of them may be created, changed or removed
struct NotAFile
{
    Str name;
    int k;
    // The last two only for calls that read. Relative names are below the scratch directory.
    explicit NotAFile(bool read_only)
    {
        if (chdir(mc::scratch().c_str())) abort();
        static const char* const what[] = {"missing", "a directory", "below a missing directory", "the empty name", "a link to nothing", "a link to itself", "a link to a directory",
                                           "a name that is too long", "a path that is too long", "below a file", "a directory with a slash", "/dev/null", "the root"};
        mkdir(path("dir").c_str(), 0700);
        put_file(path("some"), "some data");
        unlink(path("nothing").c_str());
        k = mc::choose(read_only ? 13 : 11);
        mc::op("name: %s", what[k]);
        switch (k)
        {
            case 0: name = path("nothing"); break;
            case 1: name = path("dir"); break;
            case 2: name = path("nothing/f"); break;
            case 3: name = ""; break;
            case 4: link("nothing"); break;
            case 5: link("alink"); break;
            case 6: link("dir"); break;
            case 7: name = path(Str(256, 'n').c_str()); break;
            case 8: name = mc::scratch() + Str(5000, '/') + "f"; break;
            case 9: name = path("some/f"); break;
            case 10: name = path("dir/"); break;
            case 11: name = "/dev/null"; break;
            case 12: name = "/"; break;
        }
    }
    void link(const char* to)
    {
        name = path("alink");
        unlink(name.c_str());
        if (symlink(to, name.c_str())) abort();
    }
    ~NotAFile()
    {
        unlink(path("alink").c_str());
        unlink(path("some").c_str());
        rmdir(path("dir").c_str());
        if (chdir("/")) abort();
    }
};

// Until it is destroyed permissions of files count, even for root
struct Unprivileged
{
    Unprivileged() { set(false); }
    ~Unprivileged() { set(true); }
    static void set(bool on)
    {
        __user_cap_header_struct h = {_LINUX_CAPABILITY_VERSION_3, 0};
        __user_cap_data_struct d[2];
        if (syscall(SYS_capget, &h, d)) abort();
        unsigned bits = 1u << CAP_DAC_OVERRIDE | 1u << CAP_DAC_READ_SEARCH | 1u << CAP_FOWNER;
        for (auto& x : d)
        {
            if (on) x.effective |= x.permitted & bits;
            else x.effective &= ~bits;
            bits = 0;
        }
        if (syscall(SYS_capset, &h, d)) abort();
    }
};

inline Str listing(const Str& dir = mc::scratch())
{
    std::vector<Str> v;
    DIR* d = opendir(dir.c_str());
    while (dirent* e = readdir(d))
        if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) v.push_back(e->d_name);
    closedir(d);
    std::sort(v.begin(), v.end());
    Str s;
    for (auto& x : v) s += x + "\n";
    return s;
}

} // namespace m
