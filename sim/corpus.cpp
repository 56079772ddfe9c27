// Sources of the repository's own end-to-end fixtures (copied), used as workload.
#include "case.h"
extern const char* const corpus[];
extern const int corpus_n;
const char* const corpus[] = {
R"SRC(void put_int(int x);
void put_unsigned_int(unsigned int x);
void put_long_long(long long x);
void put_unsigned_long_long(unsigned long long x);
void put_blank_line(void);

void int_arithmetic(void) {
    put_int(1 + 2);
    put_int(3 - 8);
    put_int(4 * 2);
    put_int(17 / 4);
    put_blank_line();
}

void unsigned_int_arithmetic(void) {
    put_unsigned_int(1 + 2u);
    put_unsigned_int(8u - 3);
    put_unsigned_int(4u * 2);
    put_unsigned_int(17u / 4u);
    put_blank_line();
}

void long_long_arithmetic(void) {
    put_long_long(1 + 2ll);
    put_long_long(3ll - 8u);
    put_long_long(4 * 2ll);
    put_long_long(17u / 4ll);
    put_blank_line();
}

void unsigned_long_long_arithmetic(void) {
    put_unsigned_long_long(1 + 2ull);
    put_unsigned_long_long(8ull - 3);
    put_unsigned_long_long(4ull * 2);
    put_unsigned_long_long(17u / 4ull);
    put_blank_line();
}

int main(void) {
    int_arithmetic();
    unsigned_int_arithmetic();
    long_long_arithmetic();
    unsigned_long_long_arithmetic();
    return 0;
}
)SRC",
R"SRC(void put_int(int x);
void put_blank_line(void);

int sum(int a[5]) {
    return a[0] + a[1] + a[2] + a[3] + a[4];
}

int main(void) {
    int a[5];
    a[0] = 3;
    a[1] = a[0] + 2;
    a[2] = a[0] + a[1];
    *(a + 3) = *a - 2;
    *(a + 4) = *(a + 3) - *a;

    put_int(*a);
    put_int(*(a + 1));
    put_int(*(a + 2));
    put_int(a[3]);
    put_int(a[4]);
    put_int(&a[4] - &a[1]);
    put_blank_line();

    int b[3];
    0 [b] = 10;
    1 [b] = 11;
    2 [b] = 12;
    put_int(0 [b]);
    put_int(1 [b]);
    put_int(2 [b]);
    put_blank_line();

    int c[3][3];
    c[1][2] = 3;
    put_int(c[1][2]);
    put_blank_line();

    int d[5] = {1, 2, 3, 5, 8};
    put_int(sum(d));

    return 0;
}
)SRC",
R"SRC(void put_int(int x);
void put_blank_line(void);

void simple_assignment(void) {
    int first, second, third;

    first = 3;
    second = first - 1;
    third = first * second;

    put_int(first);
    put_int(second);
    put_int(third);
    put_int(third - (first - second));
    put_blank_line();

    third = (first = 9) - (second = 1);
    put_int(first);
    put_int(second);
    put_int(third);
    put_blank_line();
}

void compound_assignment(void) {
    int x;

    x = 3;
    put_int(x += 2);
    put_int(x);
    put_blank_line();

    x = 3;
    put_int(x -= 1);
    put_int(x);
    put_blank_line();

    x = 3;
    put_int(x *= 2);
    put_int(x);
    put_blank_line();

    x = 3;
    put_int(x /= 2);
    put_int(x);
    put_blank_line();

    x = 3;
    put_int(x %= 3);
    put_int(x);
    put_blank_line();

    x = 3;
    put_int(x &= 1);
    put_int(x);
    put_blank_line();

    x = 3;
    put_int(x |= 1);
    put_int(x);
    put_blank_line();

    x = 3;
    put_int(x ^= 1);
    put_int(x);
    put_blank_line();
}

int main(void) {
    simple_assignment();
    compound_assignment();

    return 0;
}
)SRC",
R"SRC(void put_int(int x);
void put_blank_line(void);

int main(void) {
    put_int(0x0 & 0x1);
    put_int(0x0 & 0x2);
    put_int(0x1 & 0x1);
    put_int(0x1 & 0x2);
    put_blank_line();

    put_int(0x0 | 0x1);
    put_int(0x0 | 0x2);
    put_int(0x1 | 0x1);
    put_int(0x1 | 0x2);
    put_blank_line();

    put_int(0x0 ^ 0x1);
    put_int(0x0 ^ 0x2);
    put_int(0x1 ^ 0x1);
    put_int(0x1 ^ 0x2);
    put_blank_line();

    put_int(~0x0);
    put_int(~0x1);
    put_int(~0x2);
    put_int(~0x3);
    put_blank_line();

    put_int(1 << 5);
    put_int(3 << 4);
    put_blank_line();

    put_int(64 >> 5);
    put_int(128 >> 4);
    put_blank_line();

    return 0;
}
)SRC",
R"SRC(void put_char(char c);
void put_int(int x);
void put_str(char* x);

int main(void) {
    char x = 30, y = 40, z = 10;
    char w = (x * y) / z;
    put_int(w);

    char c1, c2;
    c1 = 'a';
    c2 = 'ab';
    put_char(c1);
    put_char(c2);
    put_int(c1 == c2);
    c1 = 'b';
    c2 = 'ba';
    put_char(c1);
    put_char(c2);
    put_int(c1 == c2);

    char null_char = '\0';
    put_int(null_char);

    char s[4] = {'a', 'b', 'c', '\0'};
    put_str(s);

    return 0;
}
)SRC",
R"SRC(void put_int(int x);
void put_blank_line(void);

void equality(void) {
    put_int(5 == 5);
    put_int(5 == 4);
    put_blank_line();

    put_int(5 != 5);
    put_int(5 != 4);
    put_blank_line();
}

void relational(void) {
    put_int(5 < 6);
    put_int(5 < 5);
    put_int(5 < 4);
    put_blank_line();

    put_int(5 > 6);
    put_int(5 > 5);
    put_int(5 > 4);
    put_blank_line();

    put_int(5 <= 6);
    put_int(5 <= 5);
    put_int(5 <= 4);
    put_blank_line();

    put_int(5 >= 6);
    put_int(5 >= 5);
    put_int(5 >= 4);
    put_blank_line();
}

int main(void) {
    equality();
    relational();
    return 0;
}
)SRC",
R"SRC(void put_int(int x);

int main(void) {
    int x, y;
    x = 2;
    y = 4;
    put_int(x);
    put_int(y);
    {
        int y;
        y = x - 1;
        put_int(x);
        put_int(y);
        x = x + y;
        put_int(x);
        put_int(y);
    }
    put_int(x);
    put_int(y);
    return 0;
}
)SRC",
R"SRC(int strcmp(char* s1, char* s2);

void put_int(int x);
void put_str(char* s);
void put_blank_line(void);

int max_int(int a, int b) {
    return a >= b ? a : b;
}

int min_int(int a, int b) {
    return a <= b ? a : b;
}

typedef enum IntegerLiteralType {
    INTEGER_INT,
    INTEGER_UNSIGNED_INT,
    INTEGER_LONG,
    INTEGER_UNSIGNED_LONG,
    INTEGER_LONGLONG,
    INTEGER_UNSIGNED_LONGLONG,
    INTEGER_UNKNOWN
} IntegerLiteralType;

IntegerLiteralType get_iliteral_type(char rank[10], int is_unsigned) {
    if (strcmp(rank, "int") == 0) {
        return is_unsigned ? INTEGER_UNSIGNED_INT : INTEGER_INT;
    } else if (strcmp(rank, "long") == 0) {
        return is_unsigned ? INTEGER_UNSIGNED_LONG : INTEGER_LONG;
    } else if (strcmp(rank, "long long") == 0) {
        return is_unsigned ? INTEGER_UNSIGNED_LONGLONG : INTEGER_LONGLONG;
    }
    return INTEGER_UNKNOWN;
}

int main(void) {
    put_int(max_int(1, 2));
    put_int(max_int(5, 2));
    put_int(min_int(1, 2));
    put_int(min_int(5, 2));
    put_blank_line();

    put_int(get_iliteral_type("long", 0));
    put_int(get_iliteral_type("long", 1));
    put_int(get_iliteral_type("int", 0));
    put_int(get_iliteral_type("int", 1));
    put_int(get_iliteral_type("long long", 0));
    put_int(get_iliteral_type("long long", 1));
    put_int(get_iliteral_type("unknown", 0));
    put_int(get_iliteral_type("unknown", 1));
    put_blank_line();

    return 0;
})SRC",
R"SRC(enum Size {
    SMALL = 10,
    MEDIUM = 20,
    LARGE = 30,
    EXTRA_LARGE,
};

void put_int(int x);
void put_blank_line(void);

int main(void) {
    typedef enum Number { ZERO, ONE } Number;

    put_int(ZERO);
    put_int(ONE);
    put_int(SMALL);
    put_int(MEDIUM);
    put_int(LARGE);
    put_int(EXTRA_LARGE);
    put_blank_line();

    Number p = 2, q = ZERO;
    put_int(p);
    put_int(q);
    put_blank_line();

    enum Size xs = 5, s = SMALL, m = MEDIUM, l = LARGE, xl = EXTRA_LARGE;
    put_int(xs);
    put_int(s);
    put_int(m);
    put_int(l);
    put_int(xl);
}
)SRC",
R"SRC(void put_int(int x);

int main(void) {
    int x, y;
    ;
    x = 1 + 3;
    y = x - 2;
    put_int(x);
    put_int(y);
    ;
    return 0;
}
)SRC",
R"SRC(void put_int(int x);
void put_str(char* str);
void put_blank_line(void);

int main(void) {
    for (; 0;) {
        put_str("ERROR: for loop should not be executed");
    }

    for (int i = 0; i < 5; i++) {
        put_int(i);
    }
    put_blank_line();

    int i = 0, y = 0, z = 1;
    for (i = 0; i < 11; i++) {
        z = 2 * z;
        put_int(z);
    }
    put_blank_line();

    for (int i = 0;; i += 2) {
        if (i > 10) {
            break;
        }
        put_int(i);
    }
    put_blank_line();

    for (int i = 0; i < 5; i++) {
        if (i == 3) {
            continue;
        }
        put_int(i);
    }
    put_blank_line();

    return 0;
}
)SRC",
R"SRC(void put_int(int x);
void put_7ints(int x1, int x2, int x3, int x4, int x5, int x6, int x7);
void put_8ints(int x1, int x2, int x3, int x4, int x5, int x6, int x7, int x8);

int add_2ints(int x1, int x2) {
    return x1 + x2;
}

int addsub_8ints(int x1, int x2, int x3, int x4, int x5, int x6, int x7, int x8) {
    return x1 - x2 + x3 - x4 + x5 - x6 + x7 - x8;
}

int main(void) {
    void put_blank_line(void);

    put_7ints(1, 3, 5, 7, 9, 11, 13);
    put_blank_line();

    put_8ints(2, 4, 8, 16, 32, 64, 128, 256);
    put_blank_line();

    put_int(add_2ints(6, 7));
    put_int(add_2ints(add_2ints(1, 2), add_2ints(3, 4)));
    put_int(addsub_8ints(1, 2, 3, 4, 5, 6, 7, 8));

    return 0;
}
)SRC",
R"SRC(void put_int(int x);

int grandchild(int x, int y) {
    return x * x + y * y;
}

int child(int a, int b) {
    int c, d;
    c = a + b;
    d = a - b;
    return grandchild(c, d) - grandchild(a, b);
}

int main(void) {
    put_int(child(1, 3));
    put_int(child(4, 3));
    return 0;
}
)SRC",
R"SRC(void put_int(int x);

int bin_operator(int operator(int x, int y), int x, int y) {
    return operator(x, y);
}

int add(int x, int y) {
    return x + y;
}

int sub(int x, int y) {
    return x - y;
}

int mul(int x, int y) {
    return x * y;
}

int div(int x, int y) {
    return x / y;
}

int main(void) {
    put_int(bin_operator(add, 3, 4));
    put_int(bin_operator(sub, 1, 2));
    put_int(bin_operator(mul, 3, 5));
    put_int(bin_operator(div, 6, 5));
    return 0;
}
)SRC",
R"SRC(char c = 5;
char zc;

int i = 12;
int zi;

char ca[5] = {'d', 'e', 'f', '\0'};
char zca[5];

int ia[4] = {1, 2, 3};
int zia[4];

void put_int(int x);
void put_str(char* x);
void put_blank_line(void);

int main(void) {
    put_int(c);
    put_int(zc);
    put_blank_line();

    put_int(i);
    put_int(zi);
    put_blank_line();

    put_str(ca);
    put_str(zca);
    put_blank_line();

    put_int(ia[0]);
    put_int(ia[1]);
    put_int(ia[2]);
    put_int(ia[3]);
    put_int(zia[0]);
    put_int(zia[1]);
    put_int(zia[2]);
    put_int(zia[3]);

    return 0;
}
)SRC",
R"SRC(void put_int(int x);
void put_str(char* x);

void put_fizzbuzz(int n) {
    if (n == 0) {
        return;
    }

    put_fizzbuzz(n - 1);

    if (n % 15 == 0) {
        put_str("FizzBuzz");
    } else if (n % 3 == 0) {
        put_str("Fizz");
    } else if (n % 5 == 0) {
        put_str("Buzz");
    } else {
        put_int(n);
    }
}

int main(void) {
    put_fizzbuzz(15);
    return 0;
}
)SRC",
R"SRC(void put_int(int x);
void put_unsigned_int(unsigned int x);
void put_blank_line(void);

unsigned string_length(char* s) {
    unsigned len = 0;
    while (*s++ != '\0') {
        ++len;
    }
    return len;
}

int main(void) {
    int x;

    x = 1;
    put_int(x++);
    x = 1;
    put_int(++x);
    x = 1;
    put_int(x--);
    x = 1;
    put_int(--x);
    put_blank_line();

    char* s = "Hello, world!";
    put_unsigned_int(string_length(s));

    return 0;
}
)SRC",
R"SRC(void put_int(int x);
void put_blank_line(void);

int main(void) {
    int x = 8;
    int y = {x};

    put_int(x);
    put_int(y);
    put_blank_line();

    int a[2] = {1};
    put_int(a[0]);
    put_int(a[1]);
    put_blank_line();

    int b[2][3] = {{2}, {3, 4, 5}};
    put_int(b[0][0]);
    put_int(b[0][1]);
    put_int(b[0][2]);
    put_int(b[1][0]);
    put_int(b[1][1]);
    put_int(b[1][2]);
    put_blank_line();

    int c[3][2] = {x + 1, x * 2, x + 4};
    put_int(c[0][0]);
    put_int(c[0][1]);
    put_int(c[1][0]);
    put_int(c[1][1]);
    put_int(c[2][0]);
    put_int(c[2][0]);
    put_blank_line();

    int d[3][3] = {{10}, 11, 12, 13, {14}};
    put_int(d[0][0]);
    put_int(d[0][1]);
    put_int(d[0][2]);
    put_int(d[1][0]);
    put_int(d[1][1]);
    put_int(d[1][2]);
    put_int(d[2][0]);
    put_int(d[2][1]);
    put_int(d[2][2]);
    put_blank_line();

    int e[2][3] = {20, {21}, {22}};
    put_int(e[0][0]);
    put_int(e[0][1]);
    put_int(e[0][2]);
    put_int(e[1][0]);
    put_int(e[1][1]);
    put_int(e[1][2]);

    return 0;
}
)SRC",
R"SRC(void put_int(int x);

int main(void) {
    put_int(012);
    put_int(0x2A);
    put_int(0x2d);
    return 0;
}
)SRC",
R"SRC(int identity_put_int(int x);
void put_int(int x);
void put_blank_line(void);

int main(void) {
    put_int(2 && 1);
    put_int(0 && 1);
    put_int(2 && 0);
    put_int(0 && 0);
    put_blank_line();

    put_int(2 || 1);
    put_int(0 || 1);
    put_int(2 || 0);
    put_int(0 || 0);
    put_blank_line();

    put_int(!2);
    put_int(!!1);
    put_int(!0);
    put_int(!!0);
    put_blank_line();

    identity_put_int(7) && identity_put_int(4);
    put_blank_line();

    identity_put_int(0) && identity_put_int(4);
    put_blank_line();

    identity_put_int(7) && identity_put_int(0);
    put_blank_line();

    identity_put_int(0) && identity_put_int(0);
    put_blank_line();

    identity_put_int(7) || identity_put_int(4);
    put_blank_line();

    identity_put_int(0) || identity_put_int(4);
    put_blank_line();

    identity_put_int(7) || identity_put_int(0);
    put_blank_line();

    identity_put_int(0) || identity_put_int(0);

    return 0;
}
)SRC",
R"SRC(void put_int(int x);

int main(void) {
    int x, y;
    x = 5;
    y = 8;

    int *p, *q;
    p = &x;
    q = &y;

    int n;
    n = 2;

    int z, w;
    int *r = &z, *s = &w;

    *r = *s = 7;

    put_int(*&x);
    put_int(*&y);
    put_int(*p == x);
    put_int(*q == y);
    put_int(p - &x == 0);
    put_int(q - &y == 0);
    put_int((p + n) - n == p);
    put_int((q + n) - n == q);
    put_int(*r);
    put_int(*s);

    return 0;
}
)SRC",
R"SRC(void put_str(char* s);
void put_blank_line(void);

char global_array[20] = "global char array";
char tricky_global_array[21] = "tricky glo\0bal array";

int main(void) {
    char local_array[19] = "local char array";
    char tricky_local_array[20] = "tricky lo\0cal array";
    char* local_pointer = "local char pointer";
    char* tricky_local_pointer = "local ch\0ar pointer";

    put_str(global_array);
    put_str(local_array);
    put_str(local_pointer);
    put_str("inline string");
    put_blank_line();

    put_str(tricky_global_array);
    put_str(tricky_global_array + 11);
    put_str(tricky_local_array);
    put_str(tricky_local_array + 10);
    put_str(tricky_local_pointer);
    put_str(tricky_local_pointer + 9);
    put_str("tricky inl\0ine string");
    put_str(&"tricky inl\0ine string"[11]);

    return 0;
}
)SRC",
R"SRC(typedef struct Node {
    int value;
    struct Node* next;
} Node;

Node* new_node(int value);
void delete_node(Node* node);

void put_int(int x);
void put_blank_line(void);

struct {
    char x;
    int a[3];
} gtest = {12, 6, 10};

Node gnode = {5};

int main(void) {
    struct {
        char x;
        int a[3];
    } test = {1};

    put_int(gtest.x);
    put_int(gtest.a[0]);
    put_int(gtest.a[1]);
    put_int(gtest.a[2]);
    put_int(test.x);
    put_int(test.a[0]);
    put_int(test.a[1]);
    put_int(test.a[2]);
    put_blank_line();

    gtest.x = 7;
    gtest.a[0] = 11;
    test.a[2] = 3;
    test.a[1] = 2;

    put_int(gtest.x);
    put_int(gtest.a[0]);
    put_int(gtest.a[1]);
    put_int(gtest.a[2]);
    put_int(test.x);
    put_int(test.a[0]);
    put_int(test.a[1]);
    put_int(test.a[2]);
    put_blank_line();

    struct Coordinate {
        int x;
        int y;
        int z;
    };

    struct Coordinate point;

    point.y = 2;
    point.z = 5;
    point.x = 3;

    put_int(point.x);
    put_int(point.y);
    put_int(point.z);
    put_blank_line();

    Node* node = new_node(10);
    node->next = new_node(20);
    gnode.next = node;
    put_int(gnode.value);
    put_int(gnode.next->value);
    put_int(gnode.next->next->value);

    delete_node(node);

    return 0;
}
)SRC",
R"SRC(void put_int(int x);
void put_str(char* s);
void put_blank_line(void);

typedef enum IntegerType {
    INT,
    UNSIGNED_INT,
    LONG,
    UNSIGNED_LONG,
    LONG_LONG,
    UNSIGNED_LONG_LONG,
} IntegerType;

int get_integer_unsigned(IntegerType type) {
    switch (type) {
        case UNSIGNED_INT:
        case UNSIGNED_LONG:
        case UNSIGNED_LONG_LONG:
            return 1;
        default:
            return 0;
    }
}

void put_integer_size(IntegerType type) {
    switch (type) {
        case INT:
        case UNSIGNED_INT:
            put_int(4);
            break;
        case LONG:
        case UNSIGNED_LONG:
            put_int(8);
            break;
        case LONG_LONG:
        case UNSIGNED_LONG_LONG:
            put_int(8);
            break;
    }
}

void put_integer_type_name(IntegerType type) {
    switch (type) {
        case INT:
            put_str("int");
            break;
        case UNSIGNED_INT:
            put_str("unsigned int");
            break;
        case LONG:
            put_str("long");
            break;
        case UNSIGNED_LONG:
            put_str("unsigned long");
            break;
        case LONG_LONG:
            put_str("long long");
            break;
        case UNSIGNED_LONG_LONG:
            put_str("unsigned long long");
            break;
    }
}

int various_integer_literal(int x) {
    switch (x) {
        case 3:
            return 3;
        default:
            return -1;
        case 1L:
            return 10;
        case 2LL:
            return 200;
    }
}

int main(void) {
    put_int(get_integer_unsigned(INT));
    put_int(get_integer_unsigned(UNSIGNED_INT));
    put_int(get_integer_unsigned(LONG));
    put_int(get_integer_unsigned(UNSIGNED_LONG));
    put_int(get_integer_unsigned(LONG_LONG));
    put_int(get_integer_unsigned(UNSIGNED_LONG_LONG));
    put_blank_line();

    put_integer_size(INT);
    put_integer_size(UNSIGNED_INT);
    put_integer_size(LONG);
    put_integer_size(UNSIGNED_LONG);
    put_integer_size(LONG_LONG);
    put_integer_size(UNSIGNED_LONG_LONG);
    put_blank_line();

    put_integer_type_name(INT);
    put_integer_type_name(UNSIGNED_INT);
    put_integer_type_name(LONG);
    put_integer_type_name(UNSIGNED_LONG);
    put_integer_type_name(LONG_LONG);
    put_integer_type_name(UNSIGNED_LONG_LONG);
    put_blank_line();

    put_int(various_integer_literal(0));
    put_int(various_integer_literal(1));
    put_int(various_integer_literal(2));
    put_int(various_integer_literal(3));
    put_blank_line();

    return 0;
}
)SRC",
R"SRC(typedef int test_int, *test_intptr;

void put_int(test_int x);
void put_str(char* s);
void put_blank_line(void);

int main(void) {
    test_int a, b;
    test_intptr p, q;
    a = 8;
    b = 13;
    p = &a;
    q = &b;

    put_int(a);
    put_int(b);
    put_int(*p);
    put_int(*q);
    put_int(p == &a);
    put_int(q == &b);
    put_blank_line();

    char typedef test_char;
    test_char x = 20, y = 40, z = 50, w = 10;
    put_int((x * y + z) / w);
    {
        char typedef* string;
        string s = "ptr string";
        put_str(s);
    }

    {
        char typedef string[14];
        string s = "array string";
        put_str(s);
        put_int(s[13]);
    }

    return 0;
}
)SRC",
R"SRC(void* malloc(int n);
void free(void* p);
void puts(char* s);

void put_int(int);
void put_blank_line(void);

void put_helloworld(void) {
    puts("Hello World");
}

int main(void) {
    put_helloworld();
    put_blank_line();

    typedef struct {
        int x;
    } VoidStruct;
    VoidStruct* s = malloc(4);
    s->x = 7;
    put_int(s->x);
    s->x = s->x * s->x;
    put_int(s->x);
    free(s);

    return 0;
}
)SRC",
R"SRC(void put_int(int x);
void put_str(char* str);
void put_blank_line(void);

int main(void) {

    while (0) {
        put_str("ERROR: while loop should not be executed");
    }

    int x = 0;
    while (x < 5) {
        put_int(x);
        x++;
    }
    put_blank_line();

    int y = 0;
    int z = 1;
    while (y < 10) {
        z = 2 * z;
        y++;
        put_int(z);
    }
    put_blank_line();

    y = 0;
    while (1) {
        if (y > 10) {
            break;
        }
        put_int(y);
        y += 2;
    }
    put_blank_line();

    y = 0;
    while (y < 5) {
        if (y % 2 == 0) {
            y++;
            continue;
        }
        put_int(y);
        y++;
    }
    put_blank_line();

    return 0;
}
)SRC",
R"SRC(void put_int(int x);
void* malloc(int n);
void free(void*);

typedef struct LinkedList LinkedList;

typedef struct LinkedList {
    int value;
    LinkedList* next;
};

LinkedList* new_linkedlist(int value) {
    LinkedList* list = malloc(sizeof(LinkedList));
    list->value = value;
    list->next = (void*)0;
    return list;
}

int linkedlist_at(LinkedList* list, int n) {
    if (!list) {
        return -1;
    }
    if (n == 0) {
        return list->value;
    }
    return linkedlist_at(list->next, n - 1);
}

int linkedlist_length(LinkedList* list) {
    if (!list) {
        return 0;
    }
    return linkedlist_length(list->next) + 1;
}

int delete_linkedlist(LinkedList* list) {
    if (list->next) {
        delete_linkedlist(list->next);
    }
    free(list);
    return 0;
}

int main(void) {
    LinkedList* list = new_linkedlist(2);
    LinkedList* node = list;

    node->next = new_linkedlist(3);
    node = node->next;

    node->next = new_linkedlist(5);
    node = node->next;

    node->next = new_linkedlist(8);
    node = node->next;

    put_int(linkedlist_length(list));
    put_int(linkedlist_at(list, 0));
    put_int(linkedlist_at(list, 1));
    put_int(linkedlist_at(list, 2));
    put_int(linkedlist_at(list, 3));
    put_int(linkedlist_at(list, 4));
    put_int(linkedlist_at(list, 5));

    delete_linkedlist(list);

    return 0;
}
)SRC",
R"SRC(void* malloc(unsigned int size);
void free(void* ptr);

void put_int(int x);

void merge_sort(int* array, int left, int right) {
    if (left >= right) {
        return;
    }

    int mid = (left + right) / 2;
    merge_sort(array, left, mid);
    merge_sort(array, mid + 1, right);

    int i = left;
    int j = mid + 1;
    int k = 0;
    int* temp = malloc(sizeof(int) * (right - left + 1));
    while (i <= mid && j <= right) {
        if (array[i] < array[j]) {
            temp[k] = array[i];
            ++i;
        } else {
            temp[k] = array[j];
            ++j;
        }
        ++k;
    }

    while (i <= mid) {
        temp[k] = array[i];
        ++i;
        ++k;
    }

    while (j <= right) {
        temp[k] = array[j];
        ++j;
        ++k;
    }

    i = left;
    k = 0;
    while (i <= right) {
        array[i] = temp[k];
        ++i;
        ++k;
    }

    free(temp);
}

int main(void) {
    int array[13] = {13, 3, 9, 8, 5, 1, 4, 11, 2, 7, 2, 4, 6};
    merge_sort(array, 0, 12);

    for (int i = 0; i < 13; ++i) {
        put_int(array[i]);
    }

    return 0;
}
)SRC",
R"SRC(void put_int(int x);

void quick_sort(int* array, int begin, int end) {
    if (begin >= end) {
        return;
    }

    int i = begin;
    int j = end;
    int pivot = array[begin];

    while (i < j) {
        while (i < j && array[j] > pivot) {
            j--;
        }
        array[i] = array[j];
        while (i < j && array[i] <= pivot) {
            i++;
        }
        array[j] = array[i];
    }

    array[i] = pivot;

    quick_sort(array, begin, i - 1);
    quick_sort(array, j + 1, end);
}

int main(void) {
    int array[13] = {13, 3, 9, 8, 5, 1, 4, 11, 2, 7, 2, 4, 6};
    quick_sort(array, 0, 12);

    for (int i = 0; i < 13; ++i) {
        put_int(array[i]);
    }

    return 0;
}
)SRC",
};
const int corpus_n = 30;
