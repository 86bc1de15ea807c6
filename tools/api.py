"""The public interface: names and the conventions the analyses rely on (a fixed list; anything else is analysed in its callers)."""
import re
MPI_STATUS = '''copy set_int get_int load_bin store_bin load_str store_str abs add_abs sub_abs mul_abs div_abs add sub mul div
sqr sqrt shl shr exp mod_exp gcd lcm inv mul_baseline mul_comba mul_karatsuba mul_toom3 sqr_baseline sqr_comba sqr_karatsuba
rand rand_range prime mul_dig grow shrd shld'''.split()
STATUS = ['cry_mpi_' + x for x in MPI_STATUS] + '''cry_mpi_init cry_mpi_init_copy cry_mpi_init_size cry_mpi_init_int cry_mpi_init_bin
cry_mpi_init_str cry_mpi_init_list
cry_ecp_init cry_ecp_init_int cry_ecp_copy cry_ecp_add cry_ecp_dbl cry_ecp_mul cry_ecp_init_list cry_ecp_grp_init cry_ecp_grp_load
cry_dh_init cry_dh_agree cry_dh_finalize cry_dh_get_tok cry_dh_set_tok cry_dh_get_sec
cry_dsa_init cry_dsa_sign cry_dsa_verify cry_dsa_keygen
cry_ecdh_init cry_ecdh_agree cry_ecdh_final
cry_ecdsa_sign cry_ecdsa_verify cry_ecdsa_init cry_ecdsa_keygen
cry_elgamal_init cry_elgamal_sign cry_elgamal_verify cry_elgamal_sign2 cry_elgamal_verify2
cry_rsa_init cry_rsa_encrypt cry_rsa_decrypt cry_rsa_sign cry_rsa_verify cry_rsa_keygen
cry_affine_init cry_hill_init cry_prng_aes_init cry_prng_aes_rand cry_prng_lfsr113_init cry_prng_lfsr113_rand
cry_aes_wrap cry_aes_unwrap cry_list_init'''.split()
TRISTATE = ['cry_mpi_is_prime']            # <0 failure, 0 no, >0 yes
VALUE = ['cry_mpi_cmp_abs', 'cry_mpi_cmp', 'cry_mpi_count_bits', 'cry_base64_encode', 'cry_base64_decode', 'cry_long_inv',
         'cry_version', 'cry_version_str', 'cry_crc16_final', 'cry_crc16_ccitt', 'cry_crc16_ibm', 'cry_crc16_dnp', 'cry_crc32_final', 'cry_crc32_eth']
VOID = '''cry_mpi_clear cry_mpi_clear_list cry_mpi_print cry_ecp_clear cry_ecp_clear_list cry_ecp_grp_clear cry_dh_clear cry_dsa_clear cry_ecdh_clear
cry_ecdsa_clear cry_elgamal_clear cry_rsa_clear cry_list_clear
cry_aes_init cry_aes_clear cry_aes_key_set cry_aes_encrypt cry_aes_decrypt cry_affine_encrypt cry_affine_decrypt
cry_arc4_init cry_arc4_clear cry_arc4_key_set cry_arc4_crypt cry_cbc_init cry_cbc_clear cry_cbc_key_set cry_cbc_iv_set cry_cbc_encrypt cry_cbc_decrypt
cry_cfb_init cry_cfb_clear cry_cfb_key_set cry_cfb_iv_set cry_cfb_crypt cry_cfb8_encrypt cry_cfb8_decrypt
cry_cmac_init cry_cmac_update cry_cmac_digest cry_crc16_init cry_crc16_update cry_crc16_digest cry_crc16_ccitt_init cry_crc16_ibm_init cry_crc16_dnp_init
cry_crc32_init cry_crc32_update cry_crc32_digest cry_crc32_eth_init cry_ctr_init cry_ctr_clear cry_ctr_key_set cry_ctr_iv_set cry_ctr_encrypt
cry_des_init cry_des_clear cry_des_key_set cry_des_encrypt cry_des_decrypt cry_gcm_init cry_gcm_clear cry_gcm_key_set cry_gcm_iv_set cry_gcm_encrypt cry_gcm_decrypt
cry_gcm_update cry_gcm_digest cry_hill_encrypt cry_hill_decrypt cry_hmac_init cry_hmac_update cry_hmac_digest
cry_md5_init cry_md5_clear cry_md5_update cry_md5_digest cry_md5 cry_memxor cry_memxor2
cry_sha1_init cry_sha1_clear cry_sha1_update cry_sha1_digest cry_sha1 cry_sha256_init cry_sha256_clear cry_sha256_update cry_sha256_digest cry_sha256
cry_sha512_init cry_sha512_clear cry_sha512_update cry_sha512_digest cry_sha512 cry_sha384
cry_trivium_init cry_trivium_clear cry_trivium_key_set cry_trivium_iv_set cry_trivium_crypt'''.split()
ALL = set(STATUS) | set(TRISTATE) | set(VALUE) | set(VOID)
def lifecycle(n):
    if n == 'cry_ecp_grp_load': return True
    return n in ALL and bool(re.search(r'_(init|clear)(_|$)', n)) and bool(re.match(r'cry_(mpi|ecp|dh|dsa|ecdh|ecdsa|elgamal|rsa|list)_', n))
def is_init(n): return lifecycle(n) and ('_init' in n or n == 'cry_ecp_grp_load')
def is_clear(n): return lifecycle(n) and '_clear' in n
# parameters documented as optional (may be NULL): function -> indices
NULLABLE = {'cry_mpi_div': (0, 1), 'cry_mpi_div_abs': (0, 1), 'cry_mpi_prime': (2,), 'cry_mpi_mod_exp': (3,)}
DIAGNOSTIC = ('cry_mpi_print',)      # prints on stdout; prints nothing when memory runs out
