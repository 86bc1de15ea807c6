refac('unwrap-const-time', 'C04 C08', [('src/utils/aes_wrap.c', """    for (i = 0; i < 8; i++) {
        if (b[i] != INIT_VAL) {
            memset(out, 0, len);
            res = -1;
            break;
        }
    }
""", """    {
        unsigned char d = 0;
        for (i = 0; i < 8; i++)
            d |= a[i] ^ INIT_VAL;
        if (d != 0) {
            for (i = 0; i < len; i++)
                out[i] = 0;
            res = -1;
        }
    }
""")])
refac('unwrap-memcmp-helper', 'C04 C08', [('src/utils/aes_wrap.c', """    for (i = 0; i < 8; i++) {
        if (b[i] != INIT_VAL) {
            memset(out, 0, len);
            res = -1;
            break;
        }
    }
""", """    if (check_val(a) != 0) {
        memset(out, 0, len);
        res = -1;
    }
"""), ('src/utils/aes_wrap.c', "int cry_aes_unwrap(", """static int check_val(const unsigned char *v)
{
    static const unsigned char iv[8] = {
        INIT_VAL, INIT_VAL, INIT_VAL, INIT_VAL,
        INIT_VAL, INIT_VAL, INIT_VAL, INIT_VAL
    };

    return memcmp(v, iv, sizeof(iv));
}

int cry_aes_unwrap(""")])
refac('unwrap-loops', 'C04 C08', [('src/utils/aes_wrap.c', """    i = 6;
    while (i-- > 0) {
        r = out + (blks - 1) * 8;
        for (j = blks; j >= 1; j--) {
            memcpy(b, a, 8);
            b[7] ^= blks * i + j;
            memcpy(b + 8, r, 8);
            cry_aes_decrypt(&aes, b, b, 16);
            memcpy(a, b, 8);
            memcpy(r, b + 8, 8);
            r -= 8;
        }
    }
""", """    for (i = 6 * blks; i > 0; i--) {
        j = (i - 1) % blks;
        r = &out[j * 8];
        a[7] ^= i;
        memcpy(b, a, 8);
        memcpy(b + 8, r, 8);
        cry_aes_decrypt(&aes, b, b, 16);
        memcpy(a, b, 8);
        memcpy(r, b + 8, 8);
    }
""")])
