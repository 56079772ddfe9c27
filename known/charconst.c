int f(int a) {
    char c = '\xff';
    return (c == '\xff') + a;
}
