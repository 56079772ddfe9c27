int f(int a) {
    int v[4];
    int *p = &v[3];
    int *q = &v[0];
    return (q - p < 0) + a;
}
