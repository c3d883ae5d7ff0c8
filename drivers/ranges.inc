RG(a, 0, 0, 1, int, 1)
RG(b, 0, 9, 1, int, 10)
RG(c, 3, 17, 5, int, 3)
RG(d, 3, 18, 5, int, 4)
RG(e, 3, 19, 5, int, 4)
RG(f, -7, 6, 4, int, 4)
RG(g, -7, -7, 3, int, 1)
RG(h, -9, -1, 8, int, 2)
RG(i, 5u, 40u, 7u, unsigned, 6)
RG(j, 18446744073709551600ul, 18446744073709551610ul, 3ul, unsigned long, 4)
RG(k, -9223372036854775807l, -9223372036854775800l, 2l, long, 4)
RG(l, 0, 99, 1, int, 100)
RG(m, 1, 2, 100, int, 1)
RG(n, 4l, 10l, 3l, long, 3)
