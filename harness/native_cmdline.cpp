/* Native cross-check of the client command line with real strings: random option sets and argument vectors against a reference parser; sources. */
/* vf-link: -lpthread */
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <queue>
#include <mutex>
#include <thread>
#include <atomic>
#include <condition_variable>
#include <iostream>
#include <fstream>
#include <sstream>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include "vf.h"
#include <sys/socket.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#define private public
#include "hawktracer/client_utils/tcp_client_stream.hpp"
#undef private
#include "client_utils/command_line_parser.cpp"
#include "client_utils/tcp_client_stream.cpp"
#include "parser/file_stream.cpp"
#include "client_utils/stream_factory.cpp"
using HawkTracer::ClientUtils::CommandLineParser;
static std::string any_name() { static const char* n[] = { "a", "b", "ab", "--a", "-", "-a", "help", "a=1", "A", "" }; return n[vf_range("name", 0, 9, 9)]; }
extern "C" void N_parse(void)
{
    static const char* prefixes[] = { "--", "-", "/", "--ht-" };
    std::string prefix = prefixes[vf_range("prefix", 0, 3, 3)];
    CommandLineParser p(prefix, "app");
    std::ostringstream quiet;
    std::streambuf* old = std::cerr.rdbuf(quiet.rdbuf());
    struct O { bool flag, mandatory; };
    std::map<std::string, O> options;
    for (int n = (int)vf_range("options", 0, 4, 4); n; n--)
    {
        std::string name = any_name();
        O o = { (bool)vf_bool("flag"), (bool)vf_bool("mandatory") };
        p.register_option(name, CommandLineParser::OptionInfo(o.flag, o.mandatory, "help"));
        if (!(o.flag && o.mandatory)) options.insert(std::make_pair(name, o));
    }
    std::map<std::string, std::string> given;
    for (int round = 0; round < 2; round++)
    {
        int argc = 1 + (int)vf_range("arguments", 0, 6, 6);
        std::vector<std::string> a; a.push_back(any_name());
        for (int i = 1; i < argc; i++)
        {
            std::string s = (vf_range("prefixed", 0, 3, 3) ? prefix : std::string("")) + any_name();
            a.push_back(s);
        }
        char** argv = (char**)malloc(sizeof(char*) * (size_t)argc);   /* no terminator: nothing beyond the last argument is read */
        for (int i = 0; i < argc; i++) argv[i] = strdup(a[i].c_str());
        bool want = true;
        for (int i = 1; i < argc; i++)
        {
            if (a[i].size() <= prefix.size() || a[i].compare(0, prefix.size(), prefix) != 0) { want = false; break; }
            std::string name = a[i].substr(prefix.size());
            auto it = options.find(name);
            if (it == options.end()) { want = false; break; }
            if (it->second.flag) given.insert(std::make_pair(name, std::string()));
            else if (i + 1 >= argc) { want = false; break; }
            else given.insert(std::make_pair(name, a[++i]));
        }
        if (want) for (auto& o : options) if (o.second.mandatory && !given.count(o.first)) want = false;
        bool ok = p.parse(argc, argv);
        for (int i = 0; i < argc; i++) free(argv[i]);
        free(argv);
        vf_assert(ok == want, "success exactly when every option is known, complete and the mandatory ones are there");
        for (auto& o : options)
        {
            vf_assert(p.has_value(o.first) == (given.count(o.first) != 0), "an option has a value exactly when it was given");
            vf_assert(p.get_value(o.first, "default") == (given.count(o.first) ? given[o.first] : "default"), "the first value given, or the default");
        }
        if (!ok) break;
    }
    std::ostringstream help;
    p.print_help(help);
    for (auto& o : options) vf_assert(help.str().find(prefix + o.first) != std::string::npos, "the help lists every option");
    std::cerr.rdbuf(old);
}
extern "C" void N_source(void)
{
    using namespace HawkTracer;
    std::ostringstream quiet;
    std::streambuf* old = std::cerr.rdbuf(quiet.rdbuf());
    char dir[] = "/tmp/vf_sourceXXXXXX";
    vf_assume(mkdtemp(dir) != NULL);
    char cwd[4096];
    vf_assume(getcwd(cwd, sizeof(cwd)) && chdir(dir) == 0);
    char text[200];
    unsigned n[4]; for (int i = 0; i < 4; i++) n[i] = (unsigned)vf_range("part", 0, 255, 255);
    unsigned port = (unsigned)vf_range("port", 1, 65535, 65535);
    int with_port = vf_bool("with a port");
    int kind = (int)vf_range("kind of source", 0, 2, 2);
    snprintf(text, sizeof(text), with_port ? "%u.%u.%u.%u:%u" : "%u.%u.%u.%u", n[0], n[1], n[2], n[3], port);
    std::string ip(text, strcspn(text, ":"));
    if (kind == 0) { std::ofstream f(text); f << "x"; }
    if (kind == 2) strcpy(text, "no such file");
    {
        std::unique_ptr<parser::Stream> s = ClientUtils::make_stream_from_string(text);
        if (kind == 2) vf_assert(!s, "a source that is neither a file nor an address is refused");
        else if (kind == 0)
        {
            vf_assert(s && dynamic_cast<parser::FileStream*>(s.get()) && s->start() && s->read_byte() == 'x', "an existing file is read, whatever its name");
            s.reset();
            unlink(text);
        }
        else
        {
            ClientUtils::TCPClientStream* t = dynamic_cast<ClientUtils::TCPClientStream*>(s.get());
            vf_assert(t && t->is_continuous(), "an address is connected to");
            vf_assert(t->_ip_address == ip && t->_port == (with_port ? port : 8765), "the address and the port given, or the usual one");
        }
    }
    vf_assume(chdir(cwd) == 0);
    rmdir(dir);
    std::cerr.rdbuf(old);
}
