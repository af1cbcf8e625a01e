// user types the processor generates descriptors for, as a user's build would
#ifndef WTYPES_H
#define WTYPES_H
#include <string>
#include <vector>
#include <map>
namespace wt
{
  enum Colour {red, green, blue};
  struct Root { short r; };
  struct Inner: public Root { double d; std::string s; };
  class User: public Inner
  {
    float priv;
  public:
    bool flag;
    int i;
    Inner in;
    std::vector<short> v;
    std::map<int,double> m;
    int arr[3];
    double mat[2][3];
    char txt[16];
    Colour c;
    long long ll;
    static int shared;
    static const int K=3;
    int method(int);
    void noargs() const;
  };
}
#endif
