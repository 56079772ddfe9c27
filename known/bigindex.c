int f(long *p, int i) {
    if (&p[i] > p) {
        return 1;
    }
    return 0;
}
