/* A C program written against the generated header: one request per line, one answer per line, as harness/feat does it
 * in Rust. What a C caller relies on is checked at every call: outputs written on success only, errors on failure only,
 * deleted things marked so that deleting them again does nothing. */
#define _GNU_SOURCE
#include "keychain.h"
#include <malloc.h>
#include <stdio.h>
#include <string.h>

#if EXPECT_BITCOIN != defined(WITH_FEATURE_BITCOIN) || EXPECT_ETHEREUM != defined(WITH_FEATURE_ETHEREUM)
#error "the header's networks are not the selected ones"
#endif
#if EXPECT_CARDANO != defined(WITH_FEATURE_CARDANO) || EXPECT_BACKUP != defined(WITH_FEATURE_BACKUP)
#error "the header's features are not the selected ones"
#endif

static const char *faults[16];
static int nfaults;
static void fault(const char *what) {
  if (nfaults < 16) faults[nfaults++] = what;
}

/* requests */
#define MAXF 16
static char *fields[MAXF];
static int nfields;
static const char *field(int i) { return i < nfields ? fields[i] : ""; }
static uint32_t num(int i) { return (uint32_t)strtoul(field(i), NULL, 10); }
static int nibble(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }

typedef struct {
  uint8_t *p;
  size_t n;
} Bytes;
static Bytes held[MAXF];
static int nheld;
/* exactly as long as it must be, and one byte more for texts; copied to see that the library leaves it alone */
static Bytes bytes(int i) {
  const char *t = field(i);
  Bytes b;
  size_t k;
  b.n = *t ? (strlen(t) - 1) / 2 : 0;
  b.p = malloc(b.n + 1);
  for (k = 0; k < b.n; k++) b.p[k] = (uint8_t)(nibble(t[1 + 2 * k]) << 4 | nibble(t[2 + 2 * k]));
  b.p[b.n] = 0;
  held[nheld++] = b;
  return b;
}
static const uint8_t *ptr(Bytes b) { return b.n ? b.p : NULL; }
static const char *text(int i) { return (const char *)bytes(i).p; }
static Language language(int i) {
  static const Language all[8] = {English, French, Japanese, Korean, ChineseSimplified, ChineseTraditional, Italian, Spanish};
  return all[num(i) & 7];
}
static Network network(int i) {
  Network n;
  memset(&n, 0, sizeof n);
  n._0 = num(i);
  return n;
}
static KeyPath path(int i) {
  KeyPath p;
  p.purpose = num(i);
  p.coin = num(i + 1);
  p.account = num(i + 2);
  p.change = num(i + 3);
  p.address = num(i + 4);
  return p;
}

/* answers */
static char *out;
static size_t outn, outcap;
static void put(const char *s) {
  size_t n = strlen(s);
  if (outn + n + 1 > outcap) {
    outcap = 2 * (outn + n + 1);
    out = realloc(out, outcap);
  }
  memcpy(out + outn, s, n + 1);
  outn += n;
}
static void puthex(const uint8_t *p, size_t n) {
  char b[3];
  size_t i;
  put("x");
  for (i = 0; i < n; i++) {
    sprintf(b, "%02x", p[i]);
    put(b);
  }
}
static void putnum(uint32_t n) {
  char b[16];
  sprintf(b, "%lu", (unsigned long)n);
  put(b);
}
static void putlang(Language l) {
  switch (l) {
    case English: put("English"); return;
    case French: put("French"); return;
    case Japanese: put("Japanese"); return;
    case Korean: put("Korean"); return;
    case ChineseSimplified: put("ChineseSimplified"); return;
    case ChineseTraditional: put("ChineseTraditional"); return;
    case Italian: put("Italian"); return;
    case Spanish: put("Spanish"); return;
  }
  put("no language");
}
static const char *kind(ErrorType t) {
  switch (t) {
    case Panic: return "Panic";
    case WrongPassword: return "WrongPassword";
    case NotEnoughData: return "NotEnoughData";
    case SeedIsNotSaved: return "SeedIsNotSaved";
    case CantCalculateSeedSize: return "CantCalculateSeedSize";
    case DataError: return "DataError";
    case InvalidSeedSize: return "InvalidSeedSize";
    case KeyDoesNotExist: return "KeyDoesNotExist";
    case KeyAlreadyExist: return "KeyAlreadyExist";
    case NetworkIsNotSupported: return "NetworkIsNotSupported";
    case KeyError: return "KeyError";
    case KeyPathError: return "KeyPathError";
    case MnemonicError: return "MnemonicError";
  }
  return "no kind";
}

static ErrorPtr err, err0;
static char mark[1];
static void fresh(void *v, void *v0, size_t n) {
  memset(v, 0x5a, n);
  memcpy(v0, v, n);
}
static void begin(void) {
  err0.error_type = InvalidSeedSize;
  err0.message = mark;
  err = err0;
}
/* judges one call; answers the error if it failed */
static bool done(bool ok, const void *v, const void *v0, size_t n) {
  unsigned char raw;
  memcpy(&raw, &ok, 1);
  if (raw > 1) fault("the result is neither true nor false");
  if (ok) {
    if (err.error_type != err0.error_type || err.message != err0.message) fault("success wrote to the error");
    return true;
  }
  if (memcmp(v, v0, n)) fault("failure wrote to the output");
  if (err.message == mark || !err.message) {
    fault("failure without an error");
    put("err ?");
    return false;
  }
  put("err ");
  put(kind(err.error_type));
  put("\t");
  {
    const char *c;
    for (c = err.message; *c; c++) {
      char one[3] = {*c, 0, 0};
      if (*c == '\n') strcpy(one, "\\n");
      put(one);
    }
  }
  delete_error(&err);
  if (err.message) fault("the deleted error still points to its text");
  delete_error(&err);
  return false;
}

static KeychainManagerPtr m;
static KeychainPtr k;
static bool has_m, has_k;
static void drop_k(void) {
  if (!has_k) return;
  has_k = false;
  delete_keychain(&k);
  if (k._0) fault("the deleted keychain is still there");
  delete_keychain(&k);
}
static void drop_m(void) {
  if (!has_m) return;
  has_m = false;
  delete_keychain_manager(&m);
  if (m._0) fault("the deleted manager is still there");
  delete_keychain_manager(&m);
}

static void give(DataPtr *d) {
  puthex(d->ptr, d->len);
  delete_data(d);
  if (d->ptr) fault("the deleted data still points to its bytes");
  delete_data(d);
}
static int by_number(const void *a, const void *b) {
  uint32_t x = ((const Network *)a)->_0, y = ((const Network *)b)->_0;
  return x < y ? -1 : x > y;
}
static void putnets(Network *v, size_t n) {
  size_t i;
  qsort(v, n, sizeof *v, by_number);
  for (i = 0; i < n; i++) {
    if (i) put(",");
    putnum(v[i]._0);
  }
}

static void serve(void) {
  const char *op = field(0);
  DataPtr d, d0;
  CharPtr t, t0;
  bool f, f0;
  KeyPath p, p0;
  fresh(&d, &d0, sizeof d);
  fresh(&t, &t0, sizeof t);
  fresh(&p, &p0, sizeof p);
  memset(&f0, 0, sizeof f0);
  f = f0;
  begin();
#define IS(x) (!strcmp(op, x))
#define NEED(x) \
  if (!(x)) {   \
    put("none"); \
    return;     \
  }
  if (IS("all")) {
    Network v[3];
    size_t n = 0;
#if defined(WITH_FEATURE_BITCOIN)
    v[n++] = NETWORK_BITCOIN();
#endif
#if defined(WITH_FEATURE_ETHEREUM)
    v[n++] = NETWORK_ETHEREUM();
#endif
#if defined(WITH_FEATURE_CARDANO)
    v[n++] = NETWORK_CARDANO();
#endif
    putnets(v, n);
  } else if (IS("new")) {
    KeychainManagerPtr r, r0;
    fresh(&r, &r0, sizeof r);
    drop_k();
    drop_m();
    if (done(keychain_manager_new(&r, &err), &r, &r0, sizeof r)) {
      if (!r._0) fault("an empty manager");
      m = r;
      has_m = true;
      put("ok");
    }
  } else if (IS("drop")) {
    /* in either order */
    if (num(1)) drop_m();
    drop_k();
    drop_m();
    put("ok");
  } else if (IS("has")) {
    NEED(has_m)
    f = f0 = num(1) & 1;
    if (done(keychain_manager_has_network(&m, network(1), &f, &err), &f, &f0, sizeof f)) put(f ? "true" : "false");
  } else if (IS("gen")) {
    NEED(has_m)
    if (done(keychain_manager_generate_mnemonic(&m, language(1), &t, &err), &t, &t0, sizeof t)) {
      puthex((const uint8_t *)t, strlen(t));
      delete_string(t);
      delete_string(NULL);
    }
  } else if (IS("seed")) {
    Bytes b = bytes(1);
    NEED(has_m)
    if (done(keychain_manager_keychain_data_from_seed(&m, ptr(b), b.n, text(2), &d, &err), &d, &d0, sizeof d)) give(&d);
  } else if (IS("phrase")) {
    NEED(has_m)
    if (done(keychain_manager_keychain_data_from_mnemonic(&m, text(1), text(2), language(3), &d, &err), &d, &d0, sizeof d))
      give(&d);
  } else if (IS("open")) {
    Bytes b = bytes(1);
    KeychainPtr r, r0;
    fresh(&r, &r0, sizeof r);
    drop_k();
    NEED(has_m)
    if (done(keychain_manager_keychain_from_data(&m, ptr(b), b.n, text(2), &r, &err), &r, &r0, sizeof r)) {
      NetworksPtr n, n0;
      if (!r._0) fault("an empty keychain");
      k = r;
      has_k = true;
      fresh(&n, &n0, sizeof n);
      begin();
      if (done(keychain_networks(&k, &n, &err), &n, &n0, sizeof n)) {
        Network *v = malloc(n.count * sizeof *v + 1);
        memcpy(v, n.ptr, n.count * sizeof *v);
        put("ok ");
        putnets(v, n.count);
        free(v);
        delete_networks(&n);
        if (n.ptr) fault("the deleted networks are still there");
        delete_networks(&n);
      }
    }
  } else if (IS("add")) {
    Bytes b = bytes(1);
    NEED(has_m)
    if (done(keychain_manager_add_network(&m, ptr(b), b.n, text(2), network(3), &d, &err), &d, &d0, sizeof d)) give(&d);
  } else if (IS("change")) {
    Bytes b = bytes(1);
    NEED(has_m)
    if (done(keychain_manager_change_password(&m, ptr(b), b.n, text(2), text(3), &d, &err), &d, &d0, sizeof d)) give(&d);
#if EXPECT_BACKUP
  } else if (IS("keys")) {
    Bytes b = bytes(1);
    KeyBackupPtr r, r0;
    fresh(&r, &r0, sizeof r);
    NEED(has_m)
    if (done(keychain_manager_get_keys_data(&m, ptr(b), b.n, text(2), &r, &err), &r, &r0, sizeof r)) {
      size_t i, n = 0;
      uint32_t last = 0;
      put("ok");
      /* in the order of their numbers */
      while (n < r.count) {
        size_t best = r.count;
        for (i = 0; i < r.count; i++)
          if ((n == 0 || r.ptr[i].network._0 > last) && (best == r.count || r.ptr[i].network._0 < r.ptr[best].network._0))
            best = i;
        if (best == r.count) {
          fault("a network twice");
          break;
        }
        put(" ");
        putnum(last = r.ptr[best].network._0);
        put(":");
        puthex(r.ptr[best].data.ptr, r.ptr[best].data.len);
        n++;
      }
      delete_key_backup(&r);
      if (r.ptr) fault("the deleted backup is still there");
      delete_key_backup(&r);
    }
  } else if (IS("mnemonic")) {
    Bytes b = bytes(1);
    MnemonicInfoPtr r, r0;
    fresh(&r, &r0, sizeof r);
    NEED(has_m)
    if (done(keychain_manager_retrieve_mnemonic(&m, ptr(b), b.n, text(2), &r, &err), &r, &r0, sizeof r)) {
      puthex((const uint8_t *)r.mnemonic, strlen(r.mnemonic));
      put(" ");
      putlang(r.language);
      delete_mnemonic_info(&r);
      if (r.mnemonic) fault("the deleted phrase is still there");
      delete_mnemonic_info(&r);
    }
#endif
  } else if (IS("pub")) {
    NEED(has_k)
    if (done(keychain_pub_key(&k, network(1), path(2), &d, &err), &d, &d0, sizeof d)) give(&d);
  } else if (IS("sign")) {
    Bytes b = bytes(2);
    NEED(has_k)
    if (done(keychain_sign(&k, network(1), ptr(b), b.n, path(3), &d, &err), &d, &d0, sizeof d)) give(&d);
  } else if (IS("verify")) {
    Bytes b = bytes(2), g = bytes(3);
    NEED(has_k)
    f = f0 = b.n & 1;
    if (done(keychain_verify(&k, network(1), ptr(b), b.n, ptr(g), g.n, path(4), &f, &err), &f, &f0, sizeof f))
      put(f ? "true" : "false");
  } else {
    bool ok;
    if (IS("text")) {
      ok = keypath_from_string(text(1), &p, &err);
#if EXPECT_BITCOIN
    } else if (IS("btc44")) {
      ok = keypath_bitcoin_new_bip44(num(1) != 0, num(2), num(3), num(4), &p, &err);
    } else if (IS("btc49")) {
      ok = keypath_bitcoin_new_bip49(num(1) != 0, num(2), num(3), num(4), &p, &err);
    } else if (IS("btc84")) {
      ok = keypath_bitcoin_new_bip84(num(1) != 0, num(2), num(3), num(4), &p, &err);
#endif
#if EXPECT_CARDANO
    } else if (IS("ada")) {
      ok = keypath_cardano_new(num(1), num(2), num(3), &p, &err);
#endif
#if EXPECT_ETHEREUM
    } else if (IS("eth")) {
      ok = keypath_ethereum_new(num(1), &p, &err);
    } else if (IS("metamask")) {
      ok = keypath_ethereum_new_metamask(num(1), &p, &err);
#endif
    } else {
      put("unknown request");
      return;
    }
    if (done(ok, &p, &p0, sizeof p)) {
      putnum(p.purpose);
      put(" ");
      putnum(p.coin);
      put(" ");
      putnum(p.account);
      put(" ");
      putnum(p.change);
      put(" ");
      putnum(p.address);
    }
  }
}

int main(void) {
  char *line = NULL;
  size_t cap = 0;
  ssize_t n;
  mallopt(M_PERTURB, 0xa5);
  keychain_init_library();
  while ((n = getline(&line, &cap, stdin)) > 0) {
    char *c;
    Bytes was[MAXF];
    int i;
    if (line[n - 1] == '\n') line[n - 1] = 0;
    nfields = 0;
    for (c = strtok(line, " "); c && nfields < MAXF; c = strtok(NULL, " ")) fields[nfields++] = c;
    outn = 0;
    nheld = 0;
    nfaults = 0;
    put("");
    serve();
    /* the buffers passed in are what they were */
    for (i = 0; i < nheld; i++) was[i] = held[i];
    {
      int h = nheld, j;
      for (i = 1; i < nfields; i++) {
        if (fields[i][0] != 'x') continue;
        for (j = 0; j < h; j++) {
          Bytes again;
          if (was[j].n != (strlen(fields[i]) - 1) / 2) continue;
          nheld = 0;
          again = bytes(i);
          if (!memcmp(again.p, was[j].p, again.n + 1)) {
            was[j].n = (size_t)-1;
            free(again.p);
            break;
          }
          free(again.p);
        }
      }
      for (j = 0; j < h; j++) {
        if (was[j].n != (size_t)-1) fault("a buffer passed in was changed");
        free(was[j].p);
      }
    }
    for (i = 0; i < nfaults; i++) {
      put(i ? "; " : "\tFAULT ");
      put(faults[i]);
    }
    puts(out);
    if (fflush(stdout)) return 0;
  }
  return 0;
}
