// Parses argument vectors read from stdin with the tool's own parser and prints the result.
// line: argc-to-pass, then the hex of every element of argv (argv[argc] is NULL when argc is all of them)
#include <CmdLineParser.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <string>
#include <vector>
#include <unistd.h>

static std::string unhex(const std::string &h)
{
  std::string r;
  if(h == "-") return r;
  for(size_t i = 0; i + 1 < h.size(); i += 2) r += (char)strtol(h.substr(i, 2).c_str(), nullptr, 16);
  return r;
}
static void hex(const std::string &s)
{
  if(s.empty()) printf("-");
  for(unsigned char c : s) printf("%02x", c);
}
template <class C> static void list(const char *n, const C &c, bool sorted)
{
  std::vector<std::string> v(c.begin(), c.end());
  if(sorted) std::sort(v.begin(), v.end());
  printf(" %s=", n);
  for(size_t i = 0; i < v.size(); i++)
  {
    if(i) printf(",");
    hex(v[i]);
  }
}
static void str(const char *n, const std::string &s)
{
  printf(" %s=", n);
  hex(s);
}

int main(int argc, char **)
{
  (void)argc;
  char *line = nullptr;
  size_t cap = 0;
  while(getline(&line, &cap, stdin) > 0)
  {
    std::vector<std::string> w;
    for(char *t = strtok(line, " \n"); t; t = strtok(nullptr, " \n")) w.push_back(t);
    if(w[0] == "chdir")
    {
      if(chdir(unhex(w[1]).c_str()) != 0) { printf("nochdir\n"); return 3; }
      continue;
    }
    if(w[0] == "help")
    {
      str("text", g_helpMessage);
      printf("\n");
      continue;
    }
    int n = atoi(w[0].c_str());
    // exact blocks: any read outside is seen
    const char **av = (const char **)malloc(sizeof(char *) * (n + 1));
    for(int i = 0; i < n; i++) av[i] = strdup(unhex(w[i + 1]).c_str());
    av[n] = nullptr;
    CmdLineParser p;
    EasyMockOptions o = p.getParsedArguments(n, av);
    str("error", o.m_errorMessage);
    str("help", o.m_helpMessage);
    str("in", o.m_inputHeaderFile);
    str("out", o.m_outputDir);
    str("cwd", o.m_changeWorkingDir);
    list("only", o.m_mockOnlyList, true);
    list("extra", o.m_extraArgs, false);
    list("attr", o.m_generateAttrList, true);
    list("ignt", o.m_ignoreTypeList, true);
    list("ignf", o.m_ignoreFunList, true);
    list("cmp", o.m_comparatorList, true);
    printf(" types=%d incl=%d cpp=%d ign=%d\n", o.m_generateTypes, o.m_generateIncludedFunctions, o.m_mockCpp, o.m_ignoreParserError);
    fflush(stdout);
    for(int i = 0; i < n; i++) free((void *)av[i]);
    free(av);
  }
  return 0;
}
