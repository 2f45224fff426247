// Files live in memory: file streams opened by the code under test read and
// write hv::files() instead of the real file system.  Include in exactly one
// translation unit.
#pragma once
#include <fstream>
#include <map>
#include <string>
#include <vector>
namespace hv
{
struct MemFile
{
    std::string data;
    bool readable = true, writable = true;
    bool present = true; // may be symbolic
    int opens = 0; // successful
    int tries = 0;
};
inline std::map<std::string, MemFile>& files()
{
    static std::map<std::string, MemFile> f;
    return f;
}
struct OpenFile
{
    std::string name;
    size_t pos = 0;
    bool write = false;
};
inline std::vector<std::string>& writeLog() // names of files written to
{
    static std::vector<std::string> l;
    return l;
}
} // namespace hv
namespace std
{
__basic_file<char>::__basic_file(__c_lock*) throw() :
    _M_cfile(nullptr), _M_cfile_created(false)
{}
__basic_file<char>::~__basic_file() { this->close(); }
bool __basic_file<char>::is_open() const throw() { return _M_cfile != nullptr; }
__basic_file<char>* __basic_file<char>::open(const char* n,
                                             ios_base::openmode m, int)
{
    if (_M_cfile)
        return nullptr;
    auto& fs = hv::files();
    auto it = fs.find(n);
    if (it != fs.end() && !it->second.present)
        it = fs.end();
    if (it != fs.end())
        it->second.tries++;
    bool w = (m & (ios_base::out | ios_base::app)) != 0;
    if (w)
    {
        if (it == fs.end() || !it->second.writable)
            return nullptr;
        if (!(m & ios_base::app) && !(m & ios_base::in))
            it->second.data.clear();
    }
    else if (it == fs.end() || !it->second.readable)
        return nullptr;
    it->second.opens++;
    auto* o = new hv::OpenFile;
    o->name = n;
    o->write = w;
    if (m & ios_base::app)
        o->pos = it->second.data.size();
    _M_cfile = reinterpret_cast<__c_file*>(o);
    return this;
}
__basic_file<char>* __basic_file<char>::close()
{
    if (!_M_cfile)
        return nullptr;
    delete reinterpret_cast<hv::OpenFile*>(_M_cfile);
    _M_cfile = nullptr;
    return this;
}
int __basic_file<char>::fd() throw() { return -1; }
streamsize __basic_file<char>::xsputn(const char* s, streamsize n)
{
    auto* o = reinterpret_cast<hv::OpenFile*>(_M_cfile);
    if (!o || !o->write)
        return 0;
    auto& d = hv::files()[o->name].data;
    if (n > 0)
    {
        if (d.size() < o->pos + n)
            d.resize(o->pos + n);
        for (streamsize i = 0; i < n; i++)
            d[o->pos + i] = s[i];
        o->pos += n;
        hv::writeLog().push_back(o->name);
    }
    return n;
}
streamsize __basic_file<char>::xsputn_2(const char* a, streamsize n,
                                        const char* b, streamsize m)
{
    streamsize r = n > 0 ? xsputn(a, n) : 0;
    if (r == n && m > 0)
        r += xsputn(b, m);
    return r;
}
streamsize __basic_file<char>::xsgetn(char* s, streamsize n)
{
    auto* o = reinterpret_cast<hv::OpenFile*>(_M_cfile);
    if (!o)
        return -1;
    auto& d = hv::files()[o->name].data;
    streamsize k = (streamsize)(d.size() - o->pos);
    if (k > n)
        k = n;
    for (streamsize i = 0; i < k; i++)
        s[i] = d[o->pos + i];
    o->pos += k;
    return k;
}
streamoff __basic_file<char>::seekoff(streamoff off, ios_base::seekdir w) throw()
{
    auto* o = reinterpret_cast<hv::OpenFile*>(_M_cfile);
    if (!o)
        return -1;
    streamoff base = w == ios_base::beg
                         ? 0
                         : w == ios_base::cur
                               ? (streamoff)o->pos
                               : (streamoff)hv::files()[o->name].data.size();
    o->pos = base + off;
    return o->pos;
}
int __basic_file<char>::sync() { return 0; }
streamsize __basic_file<char>::showmanyc() { return 0; }
} // namespace std
