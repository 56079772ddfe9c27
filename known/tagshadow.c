struct A { int x; int y; };
struct A p;
int f(int a) {
    int *q = &p.x;
    struct A { int y; int x; };
    p.x = a;
    return *q;
}
