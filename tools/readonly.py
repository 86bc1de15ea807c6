"""Read-only parameters of the public interface: (function, argument index, number of parameters)."""
TABLE = [
    ('cry_aes_decrypt', 2, 4),
    ('cry_aes_encrypt', 2, 4),
    ('cry_aes_key_set', 1, 3),
    ('cry_aes_unwrap', 1, 5),
    ('cry_aes_unwrap', 3, 5),
    ('cry_aes_wrap', 1, 5),
    ('cry_aes_wrap', 3, 5),
    ('cry_affine_decrypt', 2, 4),
    ('cry_affine_encrypt', 2, 4),
    ('cry_affine_init', 1, 4),
    ('cry_affine_init', 2, 4),
    ('cry_arc4_crypt', 2, 4),
    ('cry_arc4_key_set', 1, 3),
    ('cry_base64_decode', 1, 3),
    ('cry_base64_encode', 1, 3),
    ('cry_cbc_decrypt', 2, 4),
    ('cry_cbc_encrypt', 2, 4),
    ('cry_cbc_init', 2, 3),
    ('cry_cbc_iv_set', 1, 3),
    ('cry_cbc_key_set', 1, 3),
    ('cry_cfb8_decrypt', 2, 4),
    ('cry_cfb8_encrypt', 2, 4),
    ('cry_cfb_crypt', 2, 4),
    ('cry_cfb_init', 2, 3),
    ('cry_cfb_iv_set', 1, 3),
    ('cry_cfb_key_set', 1, 3),
    ('cry_cmac_init', 2, 5),
    ('cry_cmac_update', 1, 3),
    ('cry_crc16_ccitt', 0, 2),
    ('cry_crc16_dnp', 0, 2),
    ('cry_crc16_ibm', 0, 2),
    ('cry_crc16_init', 2, 4),
    ('cry_crc16_update', 1, 3),
    ('cry_crc32_eth', 0, 2),
    ('cry_crc32_init', 2, 4),
    ('cry_crc32_update', 1, 3),
    ('cry_ctr_encrypt', 2, 4),
    ('cry_ctr_init', 2, 3),
    ('cry_ctr_iv_set', 1, 3),
    ('cry_ctr_key_set', 1, 3),
    ('cry_des_decrypt', 2, 4),
    ('cry_des_encrypt', 2, 4),
    ('cry_des_key_set', 1, 3),
    ('cry_dsa_sign', 2, 4),
    ('cry_dsa_verify', 1, 4),
    ('cry_dsa_verify', 2, 4),
    ('cry_ecdsa_sign', 2, 4),
    ('cry_ecdsa_verify', 1, 4),
    ('cry_ecdsa_verify', 2, 4),
    ('cry_ecp_add', 1, 4),
    ('cry_ecp_add', 2, 4),
    ('cry_ecp_add', 3, 4),
    ('cry_ecp_copy', 1, 2),
    ('cry_ecp_dbl', 1, 3),
    ('cry_ecp_dbl', 2, 3),
    ('cry_ecp_mul', 1, 4),
    ('cry_ecp_mul', 2, 4),
    ('cry_ecp_mul', 3, 4),
    ('cry_elgamal_sign', 2, 4),
    ('cry_elgamal_sign2', 2, 4),
    ('cry_elgamal_verify', 1, 4),
    ('cry_elgamal_verify', 2, 4),
    ('cry_elgamal_verify2', 1, 4),
    ('cry_elgamal_verify2', 2, 4),
    ('cry_gcm_decrypt', 2, 4),
    ('cry_gcm_encrypt', 2, 4),
    ('cry_gcm_init', 2, 3),
    ('cry_gcm_iv_set', 1, 3),
    ('cry_gcm_key_set', 1, 3),
    ('cry_gcm_update', 1, 3),
    ('cry_hill_decrypt', 2, 4),
    ('cry_hill_encrypt', 2, 4),
    ('cry_hill_init', 1, 4),
    ('cry_hill_init', 2, 4),
    ('cry_hmac_init', 2, 6),
    ('cry_hmac_init', 4, 6),
    ('cry_hmac_update', 1, 3),
    ('cry_md5', 1, 3),
    ('cry_md5_update', 1, 3),
    ('cry_memxor', 1, 3),
    ('cry_memxor2', 1, 4),
    ('cry_memxor2', 2, 4),
    ('cry_mpi_abs', 1, 2),
    ('cry_mpi_add', 1, 3),
    ('cry_mpi_add', 2, 3),
    ('cry_mpi_add_abs', 1, 3),
    ('cry_mpi_add_abs', 2, 3),
    ('cry_mpi_cmp', 0, 2),
    ('cry_mpi_cmp', 1, 2),
    ('cry_mpi_cmp_abs', 0, 2),
    ('cry_mpi_cmp_abs', 1, 2),
    ('cry_mpi_copy', 1, 2),
    ('cry_mpi_count_bits', 0, 1),
    ('cry_mpi_div', 2, 4),
    ('cry_mpi_div', 3, 4),
    ('cry_mpi_div_abs', 2, 4),
    ('cry_mpi_div_abs', 3, 4),
    ('cry_mpi_exp', 1, 3),
    ('cry_mpi_exp', 2, 3),
    ('cry_mpi_gcd', 1, 3),
    ('cry_mpi_gcd', 2, 3),
    ('cry_mpi_init_bin', 1, 3),
    ('cry_mpi_init_copy', 1, 2),
    ('cry_mpi_init_str', 2, 3),
    ('cry_mpi_inv', 1, 3),
    ('cry_mpi_inv', 2, 3),
    ('cry_mpi_is_prime', 0, 1),
    ('cry_mpi_lcm', 1, 3),
    ('cry_mpi_lcm', 2, 3),
    ('cry_mpi_load_bin', 1, 3),
    ('cry_mpi_load_str', 2, 3),
    ('cry_mpi_mod_exp', 1, 4),
    ('cry_mpi_mod_exp', 2, 4),
    ('cry_mpi_mod_exp', 3, 4),
    ('cry_mpi_mul', 1, 3),
    ('cry_mpi_mul', 2, 3),
    ('cry_mpi_mul_abs', 1, 3),
    ('cry_mpi_mul_abs', 2, 3),
    ('cry_mpi_mul_baseline', 1, 3),
    ('cry_mpi_mul_baseline', 2, 3),
    ('cry_mpi_mul_comba', 1, 3),
    ('cry_mpi_mul_comba', 2, 3),
    ('cry_mpi_mul_dig', 1, 3),
    ('cry_mpi_mul_karatsuba', 1, 3),
    ('cry_mpi_mul_karatsuba', 2, 3),
    ('cry_mpi_mul_toom3', 1, 3),
    ('cry_mpi_mul_toom3', 2, 3),
    ('cry_mpi_print', 0, 2),
    ('cry_mpi_rand_range', 1, 2),
    ('cry_mpi_shl', 1, 3),
    ('cry_mpi_shr', 1, 3),
    ('cry_mpi_sqr', 1, 2),
    ('cry_mpi_sqr_baseline', 1, 2),
    ('cry_mpi_sqr_comba', 1, 2),
    ('cry_mpi_sqr_karatsuba', 1, 2),
    ('cry_mpi_sqrt', 1, 2),
    ('cry_mpi_store_bin', 0, 4),
    ('cry_mpi_store_str', 0, 3),
    ('cry_mpi_sub', 1, 3),
    ('cry_mpi_sub', 2, 3),
    ('cry_mpi_sub_abs', 1, 3),
    ('cry_mpi_sub_abs', 2, 3),
    ('cry_prng_aes_init', 0, 2),
    ('cry_prng_lfsr113_init', 0, 2),
    ('cry_rsa_decrypt', 3, 5),
    ('cry_rsa_encrypt', 3, 5),
    ('cry_rsa_sign', 3, 5),
    ('cry_rsa_verify', 1, 5),
    ('cry_rsa_verify', 3, 5),
    ('cry_sha1', 1, 3),
    ('cry_sha1_update', 1, 3),
    ('cry_sha256', 1, 3),
    ('cry_sha256_update', 1, 3),
    ('cry_sha384', 1, 3),
    ('cry_sha512', 1, 3),
    ('cry_sha512_update', 1, 3),
    ('cry_trivium_crypt', 2, 4),
    ('cry_trivium_iv_set', 1, 3),
    ('cry_trivium_key_set', 1, 3),
]
