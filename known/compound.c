int ext(int x);
int a[4];
int f(int i) {
    a[ext(i)] += 2;
    return a[1];
}
