// members for the random initialisation analysis
#ifndef W_RAND_H
#define W_RAND_H
#include "classdesc.h"
#include <vector>
#include <string>
#include <map>
#include <set>
enum Three {r_a=4, r_b=-1, r_c=9};
struct Arrays
{
  int a[3];
  bool b[4];
  Three e[2];
  double d[2][3];
  short s[2][3][4][5];
  char c[7];
};
struct Members
{
  bool b; int i; char c; Three e; double d;
  std::string s; std::vector<int> v; std::map<int,bool> m; std::set<short> t; std::vector<Three> ev;
};
#endif
