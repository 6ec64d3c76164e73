#include "sut_drv.hpp"
#define D(x) int sut_main##x(int, char **); namespace drv { size_t share##x(size_t, size_t, size_t); size_t main_share##x(size_t); const char *name##x(); }
D(0) D(1) D(2) D(3) D(4)
namespace drv
{
Hooks *hooks;
int run(Test t, int argc, char **argv)
{
    int (*f[])(int, char **) = {sut_main0, sut_main1, sut_main2, sut_main3, sut_main4};
    return f[t](argc, argv);
}
size_t share(Test t, size_t n, size_t total, size_t id)
{
    size_t (*f[])(size_t, size_t, size_t) = {share0, share1, share2, share3, share4};
    return f[t](n, total, id);
}
size_t main_share(Test t, size_t n)
{
    size_t (*f[])(size_t) = {main_share0, main_share1, main_share2, main_share3, main_share4};
    return f[t](n);
}
const char *test_name(Test t)
{
    const char *(*f[])() = {name0, name1, name2, name3, name4};
    return f[t]();
}
}
