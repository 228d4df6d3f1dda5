#pragma once
#include <ngtcp2/ngtcp2_crypto.h>
#include <openssl/ssl.h>
struct ngtcp2_crypto_ossl_ctx;
NGSTUB(int, ngtcp2_crypto_ossl_init)
NGSTUB(int, ngtcp2_crypto_ossl_configure_server_session)
NGSTUB(int, ngtcp2_crypto_ossl_ctx_new)
NGSTUB(void, ngtcp2_crypto_ossl_ctx_del)
NGSTUB(SSL *, ngtcp2_crypto_ossl_ctx_get_ssl)
NGSTUB(void, ngtcp2_crypto_ossl_ctx_set_ssl)
// OpenSSL >= 3.5 only
NGSTUB(const char *, SSL_get0_group_name)
NGSTUB(int, SSL_set_quic_tls_early_data_enabled)
