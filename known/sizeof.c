int f(int a) {
    return (sizeof(int) - 5 > 0) + a;
}
