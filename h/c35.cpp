// C35 (transactions and failures) and C38 (values), the database layer and its PostgreSQL and MySQL bindings.
// The generic headers run against recording stubs; the two bindings run (their real sources) against
// in-memory stand-ins of libpq and libmysqlclient: sessions with transactions, prepared statements and
// result sets, in which any single call can be made to fail or to lose the connection.
#include "../mc/seq.h"
#include <libpq-fe.h>
#include <mysql.h>
#include <errmsg.h>
#include <database/database.h>
#include <database/util.h>
#include <database/postgresql/connection.h>
#include <database/mysql/connection.h>
#include <cmath>
#include <iostream>
#include <memory>
#include <optional>
#include <sstream>
#include <tuple>
#include <utility>
using namespace pfi::database;
namespace T = pfi::system::time;
typedef std::string S; typedef pfi::lang::shared_ptr<sql_value> V; typedef std::vector<V> Vs;
typedef std::optional<S> OS;

// ---------------------------------------------------------------- stand-in servers
struct Rec { S sql; std::vector<OS> par; bool operator==(const Rec &o) const { return sql == o.sql && par == o.par; } };
static S show(const Rec &r) { S s = r.sql; for (auto &p : r.par) s += " " + (p ? *p : S("NULL")); return s; }
static S show(const std::vector<Rec> &v) { S s; for (auto &r : v) s += "[" + show(r) + "]"; return s; }
static std::vector<Rec> committed;              // what every other session sees
struct Col { unsigned oid; enum_field_types my; unsigned flags; };
static std::vector<Col> vcols; static std::vector<std::vector<OS> > vrows;   // result of "val"
static S nul_at_exec;
static int call_no, fault_at, fault_kind, live, reconnect_fails, stale_use;
static S last_info;
enum { NONE, ERR, LOST, NULLRES };
static int hit() { return ++call_no == fault_at ? fault_kind : NONE; }
static S up(const char *q) { S r; for (; *q; q++) if (*q != ';') r += toupper((unsigned char)*q); while (!r.empty() && r.back() == ' ') r.pop_back(); return r; }
static bool is_begin(const S &u) { return u == "BEGIN" || u == "START TRANSACTION" || u == "BEGIN TRANSACTION" || u == "BEGIN WORK"; }
static bool is_commit(const S &u) { return u == "COMMIT" || u == "END" || u == "COMMIT WORK" || u == "COMMIT TRANSACTION"; }
static bool is_rollback(const S &u) { return u == "ROLLBACK" || u == "ABORT" || u == "ROLLBACK WORK" || u == "ROLLBACK TRANSACTION"; }
struct Session {
  bool in_tx = false, aborted = false, lost = false; std::vector<Rec> pend;
  void end() { in_tx = aborted = false; pend.clear(); }
  void lose() { lost = true; end(); }
  std::vector<Rec> visible() const { auto v = committed; v.insert(v.end(), pend.begin(), pend.end()); return v; }
  void ins(const Rec &r) { (in_tx ? pend : committed).push_back(r); }
  void commit() { if (!aborted) committed.insert(committed.end(), pend.begin(), pend.end()); end(); }
};
static void world(int at = 0, int kind = NONE, int rf = 0) { committed.clear(); call_no = 0; fault_at = at; fault_kind = kind; reconnect_fails = rf; live = 0; stale_use = 0; vcols.clear(); vrows.clear(); }

// ---- libpq
struct pg_result { ExecStatusType st; S err; std::vector<Col> cols; std::vector<std::vector<OS> > rows; bool alive = true; };
struct pg_conn { Session s; std::map<S, S> prep; S err; S tag; };
static PGresult *res(ExecStatusType st, const S &err = "") { PGresult *r = new PGresult; r->st = st; r->err = err; live++; return r; }
static PGresult *bad(PGconn *c, const S &e) { if (c->s.in_tx) c->s.aborted = true; c->err = e; return res(PGRES_FATAL_ERROR, e); }
static PGresult *pg_fault(PGconn *c, int k) { if (k == NULLRES) { if (c->s.in_tx) c->s.aborted = true; return 0; } if (k == LOST) { c->s.lose(); c->prep.clear(); return bad(c, "server closed the connection"); } return bad(c, "planned error"); }
static int nparams(const S &q) { int m = 0; for (size_t i = 0; i < q.size(); i++) if (q[i] == '$') m = std::max(m, atoi(q.c_str() + i + 1)); return m; }
static PGresult *pg_run(PGconn *c, const S &sql, const std::vector<OS> &par) {
  S u = up(sql.c_str());
  if (c->s.aborted && !is_commit(u) && !is_rollback(u)) return bad(c, "current transaction is aborted");
  if (is_begin(u)) { c->s.in_tx = true; return res(PGRES_COMMAND_OK); }
  if (is_commit(u)) { c->tag = c->s.aborted ? "ROLLBACK" : "COMMIT"; c->s.commit(); return res(PGRES_COMMAND_OK); }
  if (is_rollback(u)) { c->s.end(); return res(PGRES_COMMAND_OK); }
  if (u.compare(0, 3, "SEL") == 0) { PGresult *r = res(PGRES_TUPLES_OK); r->cols.push_back(Col{23}); for (auto &x : c->s.visible()) r->rows.push_back({x.par.empty() ? OS("0") : x.par[0]}); return r; }
  if (u.compare(0, 3, "VAL") == 0) { PGresult *r = res(PGRES_TUPLES_OK); r->cols = vcols; r->rows = vrows; return r; }
  if (u.compare(0, 3, "INS") == 0) { c->s.ins(Rec{sql, par}); return res(PGRES_COMMAND_OK); }
  return res(PGRES_COMMAND_OK);
}
extern "C" {
int PQisthreadsafe(void) { return 1; }
PGconn *PQconnectdb(const char *i) { last_info = i; int k = hit(); if (k == NULLRES) return 0; PGconn *c = new PGconn; live++; if (k) c->s.lost = true; return c; }
ConnStatusType PQstatus(const PGconn *c) { return !c || c->s.lost ? CONNECTION_BAD : CONNECTION_OK; }
void PQfinish(PGconn *c) { if (!c) return; live--; delete c; }
void PQreset(PGconn *c) { c->s.end(); c->prep.clear(); c->s.lost = reconnect_fails > 0; if (reconnect_fails) reconnect_fails--; }
PGTransactionStatusType PQtransactionStatus(const PGconn *c) { return c->s.lost ? PQTRANS_UNKNOWN : c->s.aborted ? PQTRANS_INERROR : c->s.in_tx ? PQTRANS_INTRANS : PQTRANS_IDLE; }
char *PQerrorMessage(const PGconn *c) { return (char *)(c ? c->err.c_str() : ""); }
static S last_prep;
PGresult *PQprepare(PGconn *c, const char *name, const char *q, int, const Oid *) {
  last_prep = q;
  if (int k = hit()) { c->prep.erase(name); return pg_fault(c, k); } if (c->s.lost) return bad(c, "no connection");
  S u = up(q);
  if (c->s.aborted && !is_commit(u) && !is_rollback(u)) return bad(c, "current transaction is aborted");
  if (*name && c->prep.count(name)) return bad(c, "prepared statement already exists");
  c->prep[name] = q; return res(PGRES_COMMAND_OK);
}
PGresult *PQexecPrepared(PGconn *c, const char *name, int n, const char *const *v, const int *, const int *fmt, int) {
  if (int k = hit()) return pg_fault(c, k); if (c->s.lost) return bad(c, "no connection");
  if (!c->prep.count(name)) return bad(c, "no such prepared statement");
  S q = c->prep[name]; if (n != nparams(q)) return bad(c, "wrong number of parameters");
  std::vector<OS> p; for (int i = 0; i < n; i++) p.push_back(v[i] ? OS(S(v[i])) : OS()); if (fmt) for (int i = 0; i < n; i++) if (fmt[i]) return bad(c, "binary format not supported here");
  return pg_run(c, q, p);
}
PGresult *PQexec(PGconn *c, const char *q) { if (int k = hit()) return pg_fault(c, k); if (c->s.lost) return bad(c, "no connection"); return pg_run(c, q, {}); }
PGresult *PQexecParams(PGconn *c, const char *q, int n, const Oid *, const char *const *v, const int *, const int *, int) { if (int k = hit()) return pg_fault(c, k); if (c->s.lost) return bad(c, "no connection"); if (n != nparams(q)) return bad(c, "wrong number of parameters"); std::vector<OS> p; for (int i = 0; i < n; i++) p.push_back(v[i] ? OS(S(v[i])) : OS()); return pg_run(c, q, p); }
ExecStatusType PQresultStatus(const PGresult *r) { return r ? r->st : PGRES_FATAL_ERROR; }
char *PQresultErrorMessage(const PGresult *r) { return (char *)(r ? r->err.c_str() : ""); }
char *PQcmdStatus(PGresult *) { return (char *)""; }
int PQnfields(const PGresult *r) { return r ? r->cols.size() : 0; }
char *PQfname(const PGresult *r, int) { return (char *)(r ? "c" : 0); }
Oid PQftype(const PGresult *r, int i) { return r->cols.at(i).oid; }
int PQntuples(const PGresult *r) { return r ? r->rows.size() : 0; }
char *PQgetvalue(const PGresult *r, int i, int j) { auto &o = r->rows.at(i).at(j); return (char *)(o ? o->c_str() : ""); }
int PQgetisnull(const PGresult *r, int i, int j) { return !r->rows.at(i).at(j); }
int PQgetlength(const PGresult *r, int i, int j) { auto &o = r->rows.at(i).at(j); return o ? o->size() : 0; }
void PQclear(PGresult *r) { if (!r) return; live--; delete r; }
}

// ---- libmysqlclient
struct FMy : MYSQL { Session s; int err = 0; bool connected = false; std::set<struct FStmt *> st; };
struct FStmt : MYSQL_STMT { FMy *my; S sql; int err = 0; S msg; bool prepared = false, executed = false, failed_meta = false; std::vector<MYSQL_BIND> pb, rb; std::vector<Col> cols; std::vector<std::vector<OS> > rows; size_t cur = 0; };
struct FRes { std::vector<MYSQL_FIELD> f; };
static FMy *M(MYSQL *m) { return static_cast<FMy *>(m); } static FStmt *St(MYSQL_STMT *s) { return static_cast<FStmt *>(s); }
static int my_fault(FMy *m, int k) { if (k == LOST) { m->s.lose(); return m->err = CR_SERVER_LOST; } if (k == NULLRES) { m->s.lose(); return m->err = CR_SERVER_GONE_ERROR; } return m->err = 1064; }
static int my_gone(FMy *m) { return m->err = CR_SERVER_GONE_ERROR; }
static S my_host, my_user, my_pass, my_db; static unsigned my_port;
extern "C" {
MYSQL *STDCALL mysql_init(MYSQL *) { if (hit()) return 0; live++; return new FMy(); }
MYSQL *STDCALL mysql_real_connect(MYSQL *m, const char *h, const char *u, const char *p, const char *d, unsigned port, const char *, unsigned long) { my_host = h; my_user = u; my_pass = p; my_db = d; my_port = port; if (hit() || reconnect_fails > 1) { if (reconnect_fails > 1) reconnect_fails--; M(m)->err = 2003; return 0; } M(m)->connected = true; return m; }
void STDCALL mysql_close(MYSQL *m) { if (!m) return; for (auto s : M(m)->st) s->my = 0; M(m)->s.end(); live--; delete M(m); }
int STDCALL mysql_ping(MYSQL *m) { if (M(m)->s.lost) { my_gone(M(m)); return 1; } if (int k = hit()) { my_fault(M(m), k == ERR ? LOST : k); return 1; } return 0; }
unsigned STDCALL mysql_errno(MYSQL *m) { return M(m)->err; }
const char *STDCALL mysql_error(MYSQL *m) { return M(m)->err ? "planned error" : ""; }
int STDCALL mysql_query(MYSQL *m, const char *q) {
  FMy *c = M(m); c->err = 0; if (c->s.lost) { my_gone(c); return 1; } S u = up(q);
  if (int k = hit()) { if (is_commit(u) || is_rollback(u)) c->s.end(); my_fault(c, k); return 1; }
  if (is_begin(u)) { c->s.commit(); c->s.in_tx = true; } else if (is_commit(u)) c->s.commit(); else if (is_rollback(u)) c->s.end(); else if (u.compare(0, 3, "INS") == 0) c->s.ins(Rec{q, {}});
  return 0;
}
MYSQL_STMT *STDCALL mysql_stmt_init(MYSQL *m) { if (!m) { stale_use = 1; return 0; } if (hit()) return 0; FStmt *s = new FStmt(); s->my = M(m); M(m)->st.insert(s); live++; return s; }
int STDCALL mysql_stmt_prepare(MYSQL_STMT *ss, const char *q, unsigned long n) { FStmt *s = St(ss); s->err = 0; if (!s->my || s->my->s.lost) return s->err = CR_SERVER_LOST; if (int k = hit()) return s->err = my_fault(s->my, k); s->sql = S(q, n); s->prepared = true; S u = up(s->sql.c_str()); if (u.compare(0, 3, "SEL") == 0) s->cols = {Col{0, MYSQL_TYPE_LONG, 0}}; else if (u.compare(0, 3, "VAL") == 0) s->cols = vcols; else s->cols.clear(); return 0; }
unsigned long STDCALL mysql_stmt_param_count(MYSQL_STMT *ss) { int n = 0; for (char c : St(ss)->sql) n += c == '?'; return n; }
MYSQL_RES *STDCALL mysql_stmt_result_metadata(MYSQL_STMT *ss) { FStmt *s = St(ss); if (s->cols.empty()) return 0; if (hit()) { s->err = CR_OUT_OF_MEMORY; s->failed_meta = true; return 0; } FRes *r = new FRes; live++; for (auto &c : s->cols) { MYSQL_FIELD f; memset(&f, 0, sizeof f); f.type = c.my; f.flags = c.flags; r->f.push_back(f); } return (MYSQL_RES *)r; }
unsigned STDCALL mysql_stmt_field_count(MYSQL_STMT *ss) { return St(ss)->cols.size(); }
MYSQL_FIELD *STDCALL mysql_fetch_fields(MYSQL_RES *r) { if (hit()) return 0; return ((FRes *)r)->f.data(); }
unsigned STDCALL mysql_num_fields(MYSQL_RES *r) { return ((FRes *)r)->f.size(); }
void STDCALL mysql_free_result(MYSQL_RES *r) { if (!r) return; live--; delete (FRes *)r; }
unsigned STDCALL mysql_stmt_errno(MYSQL_STMT *s) { return St(s)->err; }
const char *STDCALL mysql_stmt_error(MYSQL_STMT *s) { return St(s)->err ? "planned error" : ""; }
my_bool STDCALL mysql_stmt_close(MYSQL_STMT *ss) { FStmt *s = St(ss); if (s->my) s->my->st.erase(s); live--; delete s; return 0; }
my_bool STDCALL mysql_stmt_free_result(MYSQL_STMT *) { return 0; }
my_bool STDCALL mysql_stmt_bind_param(MYSQL_STMT *ss, MYSQL_BIND *b) { FStmt *s = St(ss); if (hit()) { s->err = CR_OUT_OF_MEMORY; return 1; } size_t n = mysql_stmt_param_count(ss); s->pb.assign(b, b + n); return 0; }
my_bool STDCALL mysql_stmt_bind_result(MYSQL_STMT *ss, MYSQL_BIND *b) { FStmt *s = St(ss); if (s->cols.empty()) { s->err = CR_NO_STMT_METADATA; return 1; } if (hit()) { s->err = CR_OUT_OF_MEMORY; return 1; } s->rb.assign(b, b + s->cols.size()); return 0; }
int STDCALL mysql_stmt_execute(MYSQL_STMT *ss) {
  FStmt *s = St(ss); s->err = 0; s->executed = false; s->cur = 0; s->rows.clear();
  if (!s->my || s->my->s.lost) { s->err = CR_SERVER_LOST; return 1; }
  if (int k = hit()) { s->err = my_fault(s->my, k); return 1; }
  std::vector<OS> p; if (s->pb.size() != mysql_stmt_param_count(ss)) { s->err = CR_PARAMS_NOT_BOUND; return 1; }
  for (auto &b : s->pb) {
    if (b.buffer_type == MYSQL_TYPE_NULL || (b.is_null && *b.is_null)) { p.push_back(OS()); continue; }
    char t[80]; if (!b.buffer && b.buffer_length) { s->err = 1; return 1; }
    switch (b.buffer_type) {
    case MYSQL_TYPE_TINY: snprintf(t, sizeof t, "%d", *(signed char *)b.buffer); p.push_back(S(t)); break;
    case MYSQL_TYPE_LONG: snprintf(t, sizeof t, b.is_unsigned ? "%u" : "%d", *(int *)b.buffer); p.push_back(S(t)); break;
    case MYSQL_TYPE_LONGLONG: snprintf(t, sizeof t, b.is_unsigned ? "%llu" : "%lld", *(long long *)b.buffer); p.push_back(S(t)); break;
    case MYSQL_TYPE_DOUBLE: snprintf(t, sizeof t, "%a", *(double *)b.buffer); p.push_back(S(t)); break;
    case MYSQL_TYPE_STRING: case MYSQL_TYPE_VAR_STRING: case MYSQL_TYPE_BLOB: { size_t n = b.length ? *b.length : b.buffer_length; p.push_back(S((char *)b.buffer, n)); break; }
    case MYSQL_TYPE_TIMESTAMP: case MYSQL_TYPE_DATETIME: { MYSQL_TIME *q = (MYSQL_TIME *)b.buffer; snprintf(t, sizeof t, "%s%04u-%02u-%02u %02u:%02u:%02u.%06lu", q->neg ? "-" : "", q->year, q->month, q->day, q->hour, q->minute, q->second, q->second_part); p.push_back(S(t)); break; }
    default: s->err = CR_UNSUPPORTED_PARAM_TYPE; return 1;
    }
  }
  S u = up(s->sql.c_str());
  if (u.compare(0, 3, "SEL") == 0) for (auto &x : s->my->s.visible()) s->rows.push_back({x.par.empty() ? OS("0") : x.par[0]});
  else if (u.compare(0, 3, "VAL") == 0) s->rows = vrows;
  else if (u.compare(0, 3, "INS") == 0) s->my->s.ins(Rec{s->sql, p});
  else if (is_begin(u)) { s->my->s.commit(); s->my->s.in_tx = true; } else if (is_commit(u)) s->my->s.commit(); else if (is_rollback(u)) s->my->s.end();
  s->executed = true; return 0;
}
// copies one column value into a bind, as the client library does; true when something was cut off
static bool my_put(FStmt *, const Col &c, const OS &v, MYSQL_BIND &b, unsigned long off) {
  if (b.is_null) *b.is_null = !v; if (!v) return false;
  unsigned long len = 0; bool trunc = false; char *o = (char *)b.buffer; bool uns = c.flags & UNSIGNED_FLAG;
  switch (c.my) {
  case MYSQL_TYPE_TINY: { int x = atoi(v->c_str()); if (uns != !!b.is_unsigned && (x < 0 || x > 127)) trunc = true; *o = (char)x; len = 1; break; }
  case MYSQL_TYPE_SHORT: { int x = atoi(v->c_str()); if (uns != !!b.is_unsigned && (x < 0 || x > 32767)) trunc = true; short y = (short)x; memcpy(o, &y, 2); len = 2; break; }
  case MYSQL_TYPE_LONG: { long long x = atoll(v->c_str()); if (uns != !!b.is_unsigned && (x < 0 || x > 2147483647)) trunc = true; int y = (int)x; memcpy(o, &y, 4); len = 4; break; }
  case MYSQL_TYPE_LONGLONG: { unsigned long long y = (*v)[0] == '-' ? (unsigned long long)atoll(v->c_str()) : strtoull(v->c_str(), 0, 10); if (uns != !!b.is_unsigned && y >> 63) trunc = true; memcpy(o, &y, 8); len = 8; break; }
  case MYSQL_TYPE_FLOAT: { float y = strtof(v->c_str(), 0); memcpy(o, &y, 4); len = 4; break; }
  case MYSQL_TYPE_DOUBLE: { double y = strtod(v->c_str(), 0); memcpy(o, &y, 8); len = 8; break; }
  case MYSQL_TYPE_DATE: case MYSQL_TYPE_DATETIME: case MYSQL_TYPE_TIMESTAMP: { MYSQL_TIME t; memset(&t, 0, sizeof t); sscanf(v->c_str(), "%u-%u-%u %u:%u:%u.%lu", &t.year, &t.month, &t.day, &t.hour, &t.minute, &t.second, &t.second_part); memcpy(o, &t, sizeof t); len = sizeof t; break; }
  default: { len = v->size(); unsigned long n = off < len ? std::min(len - off, b.buffer_length) : 0; if (n) memcpy(o, v->data() + off, n); trunc = n < len - off; break; }
  }
  if (b.length) *b.length = len; b.error_value = trunc; if (b.error) *b.error = trunc; return trunc;
}
int STDCALL mysql_stmt_fetch(MYSQL_STMT *ss) {
  FStmt *s = St(ss); if (!s->executed || s->cols.empty()) { s->err = CR_COMMANDS_OUT_OF_SYNC; return 1; } if (!s->my) { s->err = CR_SERVER_LOST; return 1; }
  if (int k = hit()) { s->err = my_fault(s->my, k); return 1; }
  if (s->cur >= s->rows.size()) return MYSQL_NO_DATA;
  auto &r = s->rows[s->cur++]; bool t = false; if (s->rb.size() != s->cols.size()) return 0;
  for (size_t i = 0; i < r.size(); i++) t |= my_put(s, s->cols[i], r[i], s->rb[i], 0);
  return t ? MYSQL_DATA_TRUNCATED : 0;
}
int STDCALL mysql_stmt_fetch_column(MYSQL_STMT *ss, MYSQL_BIND *b, unsigned i, unsigned long off) { FStmt *s = St(ss); if (hit()) { s->err = CR_OUT_OF_MEMORY; return 1; } if (!s->cur || i >= s->cols.size()) { s->err = CR_INVALID_PARAMETER_NO; return 1; } my_put(s, s->cols[i], s->rows[s->cur - 1][i], *b, off); return 0; }
int STDCALL mysql_stmt_store_result(MYSQL_STMT *) { return 0; }
}

// ---------------------------------------------------------------- stubs for the generic layer
static T::clock_time ct(long s, long us) { return T::clock_time(s, us); }
struct Log { std::vector<S> ev; int fail_begin = 0, fail_commit = 0, fail_rollback = 0; } static *L;
struct StubSt : statement { Vs got; Vs row; bool has = false; int n = 0; int execute(const Vs &a) { got = a; n++; return 41; } bool fetch_row(Vs &r) { if (!has) return false; r = row; return true; } using statement::execute; using statement::fetch_row; };
struct StubConn : connection { Vs got; S sql; int n = 0; void begin_transaction() { L->ev.push_back("begin"); if (L->fail_begin) throw database_error("begin"); } void commit() { L->ev.push_back("commit"); if (L->fail_commit) throw database_error("commit"); } void rollback() { L->ev.push_back("rollback"); if (L->fail_rollback) throw database_error("rollback"); }
  int run(const S &q, const Vs &a) { sql = q; got = a; n++; return 43; } statement *prepare(const S &) { return 0; } using connection::run; };
static S vs(const V &v) {  // a value as text, with its type
  if (!v) return "null"; char b[80];
  switch (v->type()) {
  case SQL_BOOL: return dynamic_cast<sql_bool &>(*v).get() ? "b:1" : "b:0"; case SQL_STRING: return "s:" + dynamic_cast<sql_string &>(*v).get(); case SQL_INT32: snprintf(b, sizeof b, "i:%d", dynamic_cast<sql_int32 &>(*v).get()); return b; case SQL_INT64: snprintf(b, sizeof b, "l:%ld", (long)dynamic_cast<sql_int64 &>(*v).get()); return b;
  case SQL_FLOAT: snprintf(b, sizeof b, "d:%a", dynamic_cast<sql_float &>(*v).get()); return b; case SQL_TIMESTAMP: snprintf(b, sizeof b, "t:%ld.%06ld", (long)dynamic_cast<sql_timestamp &>(*v).get().sec, (long)dynamic_cast<sql_timestamp &>(*v).get().usec); return b; case SQL_UNKNOWN: return "u:" + dynamic_cast<sql_unknown &>(*v).get(); default: return "?"; }
}
// argument i of a call whose types are rotated by R: type (i+R)%8, value depends on i
template <int K> struct Ty; template <> struct Ty<0> { typedef bool t; static t v(int i) { return i & 1; } static S s(int i) { return i & 1 ? "b:1" : "b:0"; } };
template <> struct Ty<1> { typedef S t; static t v(int i) { return "str" + std::to_string(i); } static S s(int i) { return "s:str" + std::to_string(i); } };
template <> struct Ty<2> { typedef int32_t t; static t v(int i) { return 100 - 70 * i; } static S s(int i) { return "i:" + std::to_string(100 - 70 * i); } };
template <> struct Ty<3> { typedef int64_t t; static t v(int i) { return (1LL << 40) + i; } static S s(int i) { return "l:" + std::to_string((1LL << 40) + i); } };
template <> struct Ty<4> { typedef double t; static t v(int i) { return i + 0.1; } static S s(int i) { char b[80]; snprintf(b, sizeof b, "d:%a", i + 0.1); return b; } };
template <> struct Ty<5> { typedef T::clock_time t; static t v(int i) { return ct(1000 + i, 7 * i); } static S s(int i) { char b[80]; snprintf(b, sizeof b, "t:%d.%06d", 1000 + i, 7 * i); return b; } };
template <int R, size_t... I> void call_args(std::index_sequence<I...>) {
  const int n = sizeof...(I); seq::begin("%d arguments, types rotated by %d", n, R); seq::op(2); std::vector<S> w{Ty<(I + R) % 6>::s(I)...};
  StubSt s; int r; if constexpr (n == 0) r = s.execute(); else r = s.execute(Ty<(I + R) % 6>::v(I)...); SEQ_CHECK(r == 41 && s.n == 1, "call", "execute ran %d times, returned %d", s.n, r);
  SEQ_CHECK((int)s.got.size() == n, "arity", "execute passed %zu of %d arguments", s.got.size(), n); for (int i = 0; i < n; i++) SEQ_CHECK(vs(s.got[i]) == w[i], "argument", "argument %d passed as %s, not %s", i, vs(s.got[i]).c_str(), w[i].c_str());
  StubConn c; if constexpr (n == 0) r = c.run("q"); else r = c.run("q", Ty<(I + R) % 6>::v(I)...); SEQ_CHECK(r == 43 && c.n == 1 && c.sql == "q", "call", "run ran %d times, returned %d", c.n, r);
  SEQ_CHECK((int)c.got.size() == n, "arity", "run passed %zu of %d arguments", c.got.size(), n); for (int i = 0; i < n; i++) SEQ_CHECK(vs(c.got[i]) == w[i], "argument", "argument %d passed as %s, not %s", i, vs(c.got[i]).c_str(), w[i].c_str());
}
template <class X> struct Out { X v; Out() : v() {} }; template <> struct Out<T::clock_time> { T::clock_time v; Out() : v(0, 0) {} };
template <int R, size_t... I> void call_row(std::index_sequence<I...>) {
  const int n = sizeof...(I);
  for (int width = 0; width <= 12; width++) for (int has = 0; has < 2; has++) {
    seq::begin("fetch_row into %d variables, types rotated by %d, %s row of %d columns", n, R, has ? "a" : "no", width); seq::op();
    StubSt s; s.has = has; Vs all; for (int i = 0; i < 12; i++) all.push_back(V());
    int k = 0; (void)std::initializer_list<int>{(all[I] = to_sql(Ty<(I + R) % 6>::v(I)), k++)...}; s.row.assign(all.begin(), all.begin() + width);
    std::tuple<Out<typename Ty<(I + R) % 6>::t>...> o; bool threw = false, r = false;
    try { r = s.fetch_row(std::get<I>(o).v...); } catch (database_error &) { threw = true; }
    if (!has) { SEQ_CHECK(!threw && !r, "end", "reports a row after the last"); continue; }
    SEQ_CHECK(threw == (width != n), "arity", "a row of %d columns was %s", width, threw ? "refused" : "accepted"); if (threw) { seq::nontrivial(); continue; }
    SEQ_CHECK(r, "row", "reports no row"); std::vector<S> got{vs(to_sql(std::get<I>(o).v))...}, w{Ty<(I + R) % 6>::s(I)...}; for (int i = 0; i < n; i++) SEQ_CHECK(got[i] == w[i], "column", "column %d read as %s, not %s", i, got[i].c_str(), w[i].c_str());
  }
}
template <int R> void arities() { call_args<R>(std::make_index_sequence<0>()); call_args<R>(std::make_index_sequence<1>()); call_args<R>(std::make_index_sequence<2>()); call_args<R>(std::make_index_sequence<3>()); call_args<R>(std::make_index_sequence<4>()); call_args<R>(std::make_index_sequence<5>()); call_args<R>(std::make_index_sequence<6>()); call_args<R>(std::make_index_sequence<7>()); call_args<R>(std::make_index_sequence<8>()); call_args<R>(std::make_index_sequence<9>()); call_args<R>(std::make_index_sequence<10>());
  call_row<R>(std::make_index_sequence<1>()); call_row<R>(std::make_index_sequence<2>()); call_row<R>(std::make_index_sequence<3>()); call_row<R>(std::make_index_sequence<4>()); call_row<R>(std::make_index_sequence<5>()); call_row<R>(std::make_index_sequence<6>()); call_row<R>(std::make_index_sequence<7>()); call_row<R>(std::make_index_sequence<8>()); call_row<R>(std::make_index_sequence<9>()); call_row<R>(std::make_index_sequence<10>()); }

// ---------------------------------------------------------------- conversions
template <class X> static S conv(const V &v) { try { return vs(to_sql(from_sql<X>(v))); } catch (database_error &) { return "error"; } }
static const int64_t EDGE[] = {0, 1, -1, 127, 128, 255, 256, 32767, 32768, -32769, 65535, 65536, 2147483646, 2147483647, 2147483648LL, 2147483649LL, 4294967295LL, 4294967296LL, 4294967297LL, -2147483647LL, -2147483648LL, -2147483649LL, -4294967295LL, -4294967296LL, -4294967297LL, INT64_MAX, INT64_MAX - 1, INT64_MIN, INT64_MIN + 1};
static std::vector<V> some() { std::vector<V> v{V(), to_sql(true), to_sql(false), to_sql(S("")), to_sql("abc"), to_sql(S("a\0b", 3)), to_sql(0.0), to_sql(-2.5), to_sql(1e300), to_sql(ct(0, 0)), to_sql(ct(1300000000, 999999)), V(new sql_unknown("zz")), V(new sql_unknown("1"))}; for (int64_t e : EDGE) { v.push_back(to_sql(e)); if (e == (int32_t)e) v.push_back(to_sql((int32_t)e)); } return v; }
static void conversions() {
  for (auto &v : some()) {
    S t = vs(v); char k = t[0]; if (t == "null") k = 'n'; seq::begin_s("convert " + seq::show(t)); seq::op(7);
    SEQ_CHECK(conv<bool>(v) == (k == 'b' ? t : "error"), "bool", "as bool: %s", conv<bool>(v).c_str()); SEQ_CHECK(conv<double>(v) == (k == 'd' ? t : "error"), "double", "as double: %s", conv<double>(v).c_str());
    SEQ_CHECK(conv<S>(v) == (k == 's' ? t : S("s:")), "string", "as string: %s", conv<S>(v).c_str()); SEQ_CHECK(conv<T::clock_time>(v) == (k == 't' ? t : "error"), "time", "as time: %s", conv<T::clock_time>(v).c_str()); SEQ_CHECK(conv<T::calendar_time>(v) == (k == 't' ? t : "error"), "time", "as calendar time: %s", conv<T::calendar_time>(v).c_str());
    bool isint = k == 'i' || k == 'l'; long long x = isint ? atoll(t.c_str() + 2) : 0; S num = std::to_string(x);
    SEQ_CHECK(conv<int64_t>(v) == (isint ? "l:" + num : S("error")), "int64", "as int64: %s", conv<int64_t>(v).c_str()); SEQ_CHECK(conv<int32_t>(v) == (isint && x == (int32_t)x ? "i:" + num : S("error")), "int32", "as int32: %s", conv<int32_t>(v).c_str());
    seq::observe(t);
  }
  seq::begin("calendar time as parameter"); T::clock_time c = ct(1234567890, 123456); SEQ_CHECK(vs(to_sql(T::calendar_time(c))) == "t:1234567890.123456", "time", "sent as %s", vs(to_sql(T::calendar_time(c))).c_str());
}
// ---------------------------------------------------------------- transaction blocks
struct Boom {};
template <class C> static void block(C &c, int exit, S &where) {
  where = "before";
  for (int i = 0; i < 1; i++) {
    transaction(c) { where = "inside"; L->ev.push_back("work"); if (exit == 1) throw Boom(); if (exit == 2) return; if (exit == 3) break; if (exit == 4) continue; if (exit == 5) throw database_error("own"); if (exit == 6) { try { throw Boom(); } catch (Boom &) {} } }
    where = "after";
  }
}
static void blocks() {
  for (int sp = 0; sp < 2; sp++) for (int exit = 0; exit < 7; exit++) for (int f = 0; f < 8; f++) {
    seq::begin("transaction block on a %s, %s%s%s%s", sp ? "shared_ptr" : "pointer", exit == 0 ? "runs to its end" : exit == 1 ? "throws" : exit == 2 ? "returns" : exit == 3 ? "breaks" : exit == 4 ? "continues" : exit == 5 ? "throws database_error" : "catches its own exception", f & 1 ? ", begin fails" : "", f & 2 ? ", commit fails" : "", f & 4 ? ", rollback fails" : ""); seq::op();
    Log log; L = &log; log.fail_begin = f & 1; log.fail_commit = f & 2; log.fail_rollback = f & 4; S where; S out = "none";
    { pfi::lang::shared_ptr<connection> p(new StubConn); connection *raw = p.get(); try { if (sp) block(p, exit, where); else block(raw, exit, where); } catch (Boom &) { out = "Boom"; } catch (database_error &e) { out = e.what(); } }
    bool thr = exit == 1 || exit == 5; S own = exit == 1 ? "Boom" : "own"; S ev; for (auto &e : log.ev) ev += e + " ";
    if (f & 1) SEQ_CHECK(ev == "begin " && out == "begin", "begin", "ran %s, reported %s", ev.c_str(), out.c_str());
    else if (thr) SEQ_CHECK(ev == "begin work rollback " && out == own, "rollback", "ran %s, reported %s", ev.c_str(), out.c_str());
    else SEQ_CHECK(ev == "begin work commit " && out == (f & 2 ? "commit" : "none"), "commit", "ran %s, reported %s", ev.c_str(), out.c_str());
    seq::observe(ev + out);
  }
}

// ---------------------------------------------------------------- the two bindings: values
static connection *open(int my) { return my ? mysql::connect("h", 3306, "d", "u", "p") : postgresql::connect("h", 5432, "d", "u", "p"); }
static S ts(long s, long us, bool frac = true) { time_t t = s; tm b; gmtime_r(&t, &b); char o[80]; snprintf(o, sizeof o, "%04d-%02d-%02d %02d:%02d:%02d", b.tm_year + 1900, b.tm_mon + 1, b.tm_mday, b.tm_hour, b.tm_min, b.tm_sec); if (frac) snprintf(o + strlen(o), 16, ".%06ld", us); return o; }
static bool same_param(int my, const V &v, const OS &g) {
  if (!v) return !g; if (!g) return false; S t = vs(v), d = t.substr(2), u = up(g->c_str());
  switch (t[0]) {
  case 'b': return my ? *g == d : d == "1" ? u == "TRUE" || u == "T" || u == "1" || u == "YES" || u == "ON" : u == "FALSE" || u == "F" || u == "0" || u == "NO" || u == "OFF";
  case 's': case 'u': return *g == d; case 'i': case 'l': return *g == d; case 'd': { char *e; double x = strtod(g->c_str(), &e); return !*e && !g->empty() && x == dynamic_cast<sql_float &>(*v).get(); }
  case 't': { auto &c = dynamic_cast<sql_timestamp &>(*v).get(); S w = ts(c.sec, c.usec); if (*g == w) return true; if (c.usec == 0 && *g == ts(c.sec, 0, false)) return true; return false; }
  }
  return false;
}
static std::vector<V> params(int my) { std::vector<V> v; for (auto &x : some()) if (!(my && x && x->type() == SQL_UNKNOWN) && !(!my && vs(x).find('\0') != S::npos)) v.push_back(x); for (double d : {1.0, 0.1, 1.0 / 3, 1e-5, 1e-11, 1e-12, 1.23456789012345e-8, 1e-300, 123456789.123456789, 1e15 + 0.3, 1e22, 4.9e-324, 1.7976931348623157e308, -0.1, -1e-20}) v.push_back(to_sql(d)); for (long s : {1L, 59L, 86399L, 86400L, 951782400L, 1078012800L, 1709164800L, 2147483647L, 2147483648L, 4102444799L}) for (long u : {0L, 1L, 10L, 500000L, 999999L, 100000L}) v.push_back(to_sql(ct(s, u))); v.push_back(to_sql(S(70000, 'x'))); v.push_back(to_sql(S("it's \"q\" \\ $1 ? %"))); v.push_back(to_sql(S("\xe6\x97\xa5\xff"))); return v; }
static S qmarks(int n) { S q = "ins"; for (int i = 0; i < n; i++) q += " ?"; return q; }
static S stored(int my, int n) { if (my) return qmarks(n); S q = "ins"; for (int i = 0; i < n; i++) q += " $" + std::to_string(i + 1); return q; }
static void send(int my, const Vs &a, int nq) {
  seq::op(); world(); bool threw = false; { std::unique_ptr<connection> c(open(my)); try { c->run(qmarks(nq), a); } catch (database_error &) { threw = true; } }
  SEQ_CHECK(live == 0, "leak", "%d client objects left", live);
  if ((int)a.size() != nq) { SEQ_CHECK(threw && committed.empty(), "parameter count", "%zu values for %d parameters accepted", a.size(), nq); seq::nontrivial(); return; }
  SEQ_CHECK(!threw, "refused", "the statement was refused"); SEQ_CHECK(committed.size() == 1 && committed[0].sql == stored(my, nq), "statement", "the server got %s", seq::show(show(committed)).c_str());
  for (int i = 0; i < nq; i++) SEQ_CHECK(committed[0].par.size() == a.size() && same_param(my, a[i], committed[0].par[i]), "parameter", "parameter %d, %s, reached the server as %s", i, seq::show(vs(a[i])).c_str(), committed[0].par[i] ? seq::show(*committed[0].par[i]).c_str() : "NULL");
}
static void send_all(int my, int p, int np) {
  auto v = params(my); size_t n = v.size();
  for (size_t i = 0; i < n; i++) { if ((int)(i % np) != p) continue; seq::begin_s(S(my ? "mysql" : "postgresql") + ": send " + seq::show(vs(v[i]))); send(my, {v[i]}, 1); for (size_t j = 0; j < n; j++) { seq::begin_s(S(my ? "mysql" : "postgresql") + ": send " + seq::show(vs(v[i])) + " and " + seq::show(vs(v[j]))); send(my, {v[i], v[j]}, 2); } }
  if (p == 0) for (int a = 0; a <= 13; a++) for (int q = 0; q <= 13; q++) for (int k = 0; k < 3; k++) { Vs x; for (int i = 0; i < a; i++) x.push_back(k == 0 ? to_sql(i) : k == 1 ? to_sql(S(i, 'a')) : V()); seq::begin("%s: %d values (kind %d) for %d parameters", my ? "mysql" : "postgresql", a, k, q); send(my, x, q); }
  if (p == 0 && !my) { seq::begin("postgresql: send a string with a zero byte"); seq::op(); world(); bool threw = false; { std::unique_ptr<connection> c(open(0)); try { c->run("ins ?", S("a\0b", 3)); } catch (database_error &) { threw = true; } } SEQ_CHECK(threw || (committed.size() == 1 && *committed[0].par[0] == S("a\0b", 3)), "parameter", "a string with a zero byte is cut silently"); }
}
struct Cell { Col c; OS text; S want; };  // want: vs() of the value, "error", or "any" (no crash is all)
static Col pc(unsigned o) { return Col{o, MYSQL_TYPE_NULL, 0}; } static Col mc_(enum_field_types t, unsigned f = 0) { return Col{0, t, f}; }
static S dv(double d) { char b[80]; snprintf(b, sizeof b, "d:%a", d); return b; } static S tv(long s, long us) { char b[80]; snprintf(b, sizeof b, "t:%ld.%06ld", s, us); return b; }
static std::vector<Cell> cells(int my) {
  std::vector<Cell> v;
  if (!my) {
    for (auto s : {"t", "true", "TRUE", "T", "y", "yes", "1"}) v.push_back({pc(16), S(s), "b:1"}); for (auto s : {"f", "false", "n", "0"}) v.push_back({pc(16), S(s), "b:0"});
    for (int64_t e : EDGE) { S n = std::to_string(e); v.push_back({pc(20), n, "l:" + n}); if (e == (int32_t)e) v.push_back({pc(23), n, "i:" + n}); if (e == (int16_t)e) v.push_back({pc(21), n, "i:" + n}); }
    for (unsigned o : {25u, 1043u}) for (auto &s : std::vector<S>{"", "a", " lead", "trail ", "two words", S(70000, 'y'), "\xe6\x97\xa5", "it's", "NULL", "5"}) v.push_back({pc(o), s, "s:" + s});
    for (unsigned o : {700u, 701u}) for (auto s : {"0", "1", "-1.5", "0.1", "1e+20", "1e-05", "4.94065645841247e-324", "1.7976931348623157e+308", "123456789.125", "-0", "3.4028235e+38"}) v.push_back({pc(o), S(s), dv(strtod(s, 0))});
    for (auto s : {"Infinity", "-Infinity"}) v.push_back({pc(701), S(s), dv(strtod(s, 0))});
    for (long s : {0L, 1L, 86399L, 951782400L, 1300000000L, 2147483648L}) { v.push_back({pc(1114), ts(s, 0, false), tv(s, 0)}); for (long u : {1L, 10L, 100L, 1000L, 10000L, 100000L, 500000L, 123456L, 120000L, 999999L, 50L, 100001L}) { S f = ts(s, u); v.push_back({pc(1114), f, tv(s, u)}); while (f.back() == '0') f.pop_back(); v.push_back({pc(1114), f, tv(s, u)}); } }
    for (auto s : {"infinity", "-infinity", "x", ""}) v.push_back({pc(1114), S(s), "error"});
    for (unsigned o : {17u, 18u, 1700u, 1082u, 99999u}) for (auto s : {"", "abc", "1.5", "2011-01-01"}) v.push_back({pc(o), S(s), "u:" + S(s)});
    for (unsigned o : {16u, 20u, 21u, 23u, 25u, 701u, 1114u, 1700u}) v.push_back({pc(o), OS(), "null"});
  } else {
    for (int x : {0, 1, -1, 127, -128, 100}) v.push_back({mc_(MYSQL_TYPE_TINY), std::to_string(x), "i:" + std::to_string(x)}); for (int x : {0, 127, 128, 255}) v.push_back({mc_(MYSQL_TYPE_TINY, UNSIGNED_FLAG), std::to_string(x), "n:" + std::to_string(x)});
    for (int x : {0, -1, 32767, -32768, 255}) v.push_back({mc_(MYSQL_TYPE_SHORT), std::to_string(x), "i:" + std::to_string(x)}); for (int x : {0, 32767, 32768, 65535}) v.push_back({mc_(MYSQL_TYPE_SHORT, UNSIGNED_FLAG), std::to_string(x), "n:" + std::to_string(x)});
    for (int64_t e : EDGE) { S n = std::to_string(e); if (e == (int32_t)e) v.push_back({mc_(MYSQL_TYPE_LONG), n, "i:" + n}); if (e >= 0 && e == (uint32_t)e) v.push_back({mc_(MYSQL_TYPE_LONG, UNSIGNED_FLAG), n, "n:" + n}); v.push_back({mc_(MYSQL_TYPE_LONGLONG), n, "l:" + n}); if (e >= 0) v.push_back({mc_(MYSQL_TYPE_LONGLONG, UNSIGNED_FLAG), n, "n:" + n}); }
    for (auto s : {"9223372036854775808", "18446744073709551615"}) v.push_back({mc_(MYSQL_TYPE_LONGLONG, UNSIGNED_FLAG), S(s), "error"});
    for (auto s : {"0", "-1.5", "0.1", "1e20"}) { v.push_back({mc_(MYSQL_TYPE_FLOAT), S(s), dv(strtof(s, 0))}); v.push_back({mc_(MYSQL_TYPE_DOUBLE), S(s), dv(strtod(s, 0))}); }
    for (long s : {0L, 1L, 86399L, 951782400L, 1300000000L, 2147483648L}) for (long u : {0L, 1L, 100000L, 999999L}) for (auto t : {MYSQL_TYPE_DATETIME, MYSQL_TYPE_TIMESTAMP}) v.push_back({mc_(t), ts(s, u), tv(s, u)}); v.push_back({mc_(MYSQL_TYPE_DATE), S("2000-02-29"), tv(951782400, 0)});
    for (auto t : {MYSQL_TYPE_STRING, MYSQL_TYPE_BLOB}) for (auto &s : std::vector<S>{"", "a", S("\0", 1), S("a\0b", 3), " x ", S(16383, 'a'), S(16384, 'b'), S(16385, 'c'), S(16386, 'd'), S(40000, 'e'), S(70000, 'f')}) v.push_back({mc_(t), s, "s:" + s});
    for (auto t : {MYSQL_TYPE_TINY, MYSQL_TYPE_LONG, MYSQL_TYPE_DOUBLE, MYSQL_TYPE_STRING, MYSQL_TYPE_BLOB, MYSQL_TYPE_DATETIME}) v.push_back({mc_(t), OS(), "null"});
  }
  return v;
}
static bool same_cell(const S &want, const V &g) { S s = vs(g); if (want[0] == 'n' && want[1] == ':') return s == "i:" + want.substr(2) || s == "l:" + want.substr(2); return s == want; }
static S brief(const Cell &c) { return (c.text ? seq::show(c.text->substr(0, 40)) + (c.text->size() > 40 ? "(" + std::to_string(c.text->size()) + ")" : "") : S("NULL")) + " of type " + std::to_string(c.c.oid ? c.c.oid : (unsigned)c.c.my) + (c.c.flags ? "u" : ""); }
// rows: each a list of cells with the same columns
static void fetch(int my, const std::vector<std::vector<Cell> > &rows) {
  S d = S(my ? "mysql" : "postgresql") + ": rows"; for (auto &r : rows) { d += " ("; for (auto &c : r) d += brief(c) + ","; d += ")"; } seq::begin_s(d); seq::op(); world();
  for (auto &c : rows[0]) vcols.push_back(c.c); for (auto &r : rows) { vrows.emplace_back(); for (auto &c : r) vrows.back().push_back(c.text); }
  std::ostringstream cap; auto old = std::cout.rdbuf(cap.rdbuf()); std::vector<Vs> got; S err;
  { std::unique_ptr<connection> c(open(my)); std::unique_ptr<statement> s(c->prepare("val")); for (int again = 0; again < 2; again++) { got.clear(); err = ""; try { s->execute(); Vs row(again ? 15 : 0); while (s->fetch_row(row)) got.push_back(row); if (s->fetch_row(row)) err = "a row after the last"; } catch (database_error &) { err = "error"; } catch (std::exception &) { err = "other error"; } } }
  std::cout.rdbuf(old); SEQ_CHECK(live == 0, "leak", "%d client objects left", live); SEQ_CHECK(cap.str().empty(), "output", "prints %s", seq::show(cap.str()).c_str());
  size_t ok = 0; while (ok < rows.size()) { bool e = false; for (auto &c : rows[ok]) if (c.want == "error") e = true; if (e) break; ok++; }
  SEQ_CHECK(err == (ok < rows.size() ? "error" : ""), "error", "%s", err.empty() ? "an unreadable value is not reported" : err.c_str()); SEQ_CHECK(got.size() == ok, "rows", "%zu rows, not %zu", got.size(), ok);
  for (size_t i = 0; i < ok; i++) { SEQ_CHECK(got[i].size() == rows[i].size(), "columns", "%zu columns", got[i].size()); for (size_t j = 0; j < got[i].size(); j++) SEQ_CHECK(same_cell(rows[i][j].want, got[i][j]), "value", "row %zu column %zu read as %s", i, j, seq::show(vs(got[i][j])).c_str()); }
}
static void fetch_all(int my, int p, int np) {
  auto v = cells(my); size_t n = v.size(), st = seq::thorough ? 1 : 5;
  for (size_t i = 0; i < n; i++) { if ((int)(i % np) != p) continue; fetch(my, {{v[i]}});
    for (size_t j = i % st; j < n; j += st) { fetch(my, {{v[i], v[j]}}); }
    for (size_t j = 0; j < n; j++) if (v[i].c.oid == v[j].c.oid && v[i].c.my == v[j].c.my && v[i].c.flags == v[j].c.flags) { fetch(my, {{v[i]}, {v[j]}}); fetch(my, {{v[i]}, {v[j]}, {v[i]}}); } }
  if (p == 0) for (int w = 1; w <= 12; w++) for (int h = 0; h <= 4; h++) { std::vector<std::vector<Cell> > r; for (int y = 0; y < h; y++) { r.emplace_back(); for (int x = 0; x < w; x++) { S s = std::to_string(100 * y + x); if ((x + y) % 4 == 3) r.back().push_back(Cell{my ? mc_(MYSQL_TYPE_STRING) : pc(25), OS(), "null"}); else r.back().push_back(Cell{my ? mc_(MYSQL_TYPE_STRING) : pc(25), s, "s:" + s}); } } if (h) fetch(my, r); }
  if (p == 0) for (int my2 = my; my2 == my; my2 += 2) { seq::begin("%s: an empty result", my ? "mysql" : "postgresql"); seq::op(); world(); vcols.push_back(my ? mc_(MYSQL_TYPE_LONG) : pc(23)); std::unique_ptr<connection> c(open(my)); std::unique_ptr<statement> s(c->prepare("val")); s->execute(); Vs row; SEQ_CHECK(!s->fetch_row(row) && !s->fetch_row(row), "rows", "an empty result has a row"); }
}
// ---------------------------------------------------------------- the two bindings: histories with faults
// ops: b begin, c commit, r rollback, i run an insert, p / q execute the first / second long-lived prepared insert,
//      s select everything, T / X a transaction block with two inserts that ends normally / throws
static bool done_cleanly; static int calls_seen;
static void history(int my, const S &h, int at, int kind, int rf, int outlive) {
  seq::begin("%s: %s%s", my ? "mysql" : "postgresql", h.c_str(), at ? (" with call " + std::to_string(at) + (kind == ERR ? " failing" : kind == LOST ? " losing the connection" : " failing (variant)") + (rf ? ", no reconnection at first" : "") + (outlive ? ", statements outlive the connection" : "")).c_str() : ""); seq::op(h.size()); world(at, kind, rf);
  std::vector<Rec> expect, tx; bool in_tx = false; int n = 0; S trace;
  {
    std::unique_ptr<statement> st[2]; std::unique_ptr<connection> c; std::unique_ptr<statement> dead[2];
    try { c.reset(open(my)); } catch (database_error &) { SEQ_CHECK(at == call_no || at, "connect", "refused"); trace = "!"; }
    auto rec = [&](const S &q, int v) { return Rec{my ? q : q.substr(0, q.size() - 1) + "$1", {std::to_string(v)}}; };
    auto ins = [&](const Rec &r) { (in_tx ? tx : expect).push_back(r); };
    for (size_t i = 0; c && i < h.size(); i++) {
      int before = call_no; bool threw = false; S what;
      try {
        switch (h[i]) {
        case 'b': c->begin_transaction(); in_tx = true; tx.clear(); break;
        case 'c': { bool w = in_tx; in_tx = false; c->commit(); if (w) expect.insert(expect.end(), tx.begin(), tx.end()); tx.clear(); break; }
        case 'r': in_tx = false; tx.clear(); c->rollback(); break;
        case 'i': { int v = ++n; c->run("ins a ?", v); ins(rec("ins a ?", v)); break; }
        case 'p': case 'q': { int k = h[i] == 'q'; const char *q = k ? "ins q ?" : "ins p ?"; if (!st[k]) st[k].reset(c->prepare(q)); int v = ++n; st[k]->execute(v); ins(rec(q, v)); break; }
        case 's': { std::unique_ptr<statement> s(c->prepare("sel")); s->execute(); std::vector<int> got, want; int x; while (s->fetch_row(x)) got.push_back(x); for (auto &r : expect) want.push_back(atoi(r.par[0]->c_str())); if (in_tx) for (auto &r : tx) want.push_back(atoi(r.par[0]->c_str())); if (got != want) seq::viol("select", "operation %zu reads %zu rows where %zu were stored", i + 1, got.size(), want.size()); break; }
        case 'T': case 'X': { int v = n + 1; n += 2; connection *cp = c.get(); bool boom = false; try { transaction(cp) { c->run("ins a ?", v); c->run("ins a ?", v + 1); if (h[i] == 'X') throw Boom(); } } catch (Boom &) { boom = true; } if (boom != (h[i] == 'X')) seq::viol("block", "operation %zu: exception lost", i + 1); if (h[i] == 'T') { expect.push_back(rec("ins a ?", v)); expect.push_back(rec("ins a ?", v + 1)); } break; }
        }
      } catch (database_error &e) { threw = true; what = e.what(); }
      trace += threw ? '!' : '.'; (void)before;
      if (threw && !at) { seq::viol("refused", "operation %zu failed: %s", i + 1, what.c_str()); return; }
      // PostgreSQL: after a failed statement the transaction is lost until it is ended
      if (stale_use) { seq::viol("stale", "operation %zu uses a closed connection", i + 1); return; }
    }
    if (outlive) { c.reset(); } else { st[0].reset(); st[1].reset(); c.reset(); }
  }
  if (!(committed == expect)) { seq::viol("stored", "results %s: the server has %s, the operations that succeeded stored %s", trace.c_str(), show(committed).c_str(), show(expect).c_str()); return; }
  if (live) { seq::viol("leak", "results %s: %d client objects left", trace.c_str(), live); return; }
  if (at && trace.find('!') != S::npos) seq::nontrivial(); seq::observe(h + trace); done_cleanly = true; calls_seen = call_no;
}
static bool legal(const S &h) { bool t = false; for (char c : h) { if (c == 'b') { if (t) return false; t = true; } else if (c == 'c' || c == 'r') { if (!t) return false; t = false; } else if ((c == 'T' || c == 'X') && t) return false; } return true; }
static void histories(int my, int p, int np) {
  seq::strings({"b", "c", "r", "i", "p", "q", "s", "T", "X"}, 0, seq::thorough ? 6 : 4, p, np, [&](const S &h) {
    if (!legal(h)) return;
    history(my, h, 0, NONE, 0, h.size() & 1); int n = calls_seen;
    for (int at = 1; at <= n; at++) for (int k : {ERR, LOST, NULLRES}) for (int rf = 0; rf < (k == LOST ? 2 : 1); rf++) history(my, h, at, k, my ? 2 * rf : rf, at & 1);
  });
}
// The key/value connection string as libpq reads it; false if it refuses it.
static bool parse_info(const S &t, std::map<S, S> &m) {
  size_t i = 0, n = t.size();
  auto sp = [&](size_t k) { return k < n && isspace((unsigned char)t[k]); };
  for (;;) {
    while (sp(i)) i++;
    if (i >= n) return true;
    S k, v;
    while (i < n && t[i] != '=' && !sp(i)) k += t[i++];
    while (sp(i)) i++;
    if (i >= n || t[i] != '=') return false;
    i++;
    while (sp(i)) i++;
    if (i < n && t[i] == '\'') {
      for (i++;; i++) {
        if (i >= n) return false;
        if (t[i] == '\'') { i++; break; }
        if (t[i] == '\\' && ++i >= n) return false;
        v += t[i];
      }
    } else
      for (; i < n && !sp(i); i++) {
        if (t[i] == '\\' && ++i >= n) break;
        v += t[i];
      }
    m[k] = v;
  }
}
static void connecting() {
  std::vector<S> vs{""};
  const S al = "a '\\=\n";
  for (size_t lo = 0, len = 1; len <= (seq::thorough ? 5 : 3); len++) { size_t hi = vs.size(); for (; lo < hi; lo++) for (char c : al) vs.push_back(vs[lo] + c); }
  for (int port : {0, 1, 5432, 65535}) for (int f = 0; f < 4; f++) for (auto &x : vs) {
    S a[4] = {"ho", "db", "us", "pw"}; a[f] = x;
    seq::begin("connection parameters, port %d, parameter %d is %s", port, f, seq::show(x).c_str()); seq::op(2); world();
    { std::unique_ptr<connection> c(mysql::connect(a[0], port, a[1], a[2], a[3])); }
    SEQ_CHECK(my_host == a[0] && my_user == a[2] && my_pass == a[3] && my_db == a[1] && (int)my_port == port, "connect", "mysql connects to %s %s %s %s %u", my_host.c_str(), my_user.c_str(), my_pass.c_str(), my_db.c_str(), my_port);
    { std::unique_ptr<connection> c(postgresql::connect(a[0], port, a[1], a[2], a[3])); }
    std::map<S, S> m; bool ok = parse_info(last_info, m);
    SEQ_CHECK(ok && m["host"] == a[0] && m["port"] == std::to_string(port) && m["dbname"] == a[1] && m["user"] == a[2] && m["password"] == a[3], "connect", "postgresql connects with %s", last_info.c_str()); }
}
// parameters are numbered from the left; a '?' within a string or a quoted name is not one
static void placeholders(int p, int np) {
  std::vector<S> al = {"?", "a", "'", "\"", " "};
  seq::strings(al, 0, seq::thorough ? 8 : 6, p, np, [](const S &q) {
    S want; int n = 0; char in = 0; for (char c : q) { if (in) { if (c == in) in = 0; want += c; } else if (c == '?') want += "$" + std::to_string(++n); else { if (c == '\'' || c == '"') in = c; want += c; } }
    if (in) return;   // not SQL
    seq::begin_s("statement " + seq::show(q)); seq::op(); world();
    std::unique_ptr<connection> c(postgresql::connect("host=h")); std::unique_ptr<statement> st(c->prepare(q));
    SEQ_CHECK(last_prep == want, "placeholders", "prepared as %s", seq::show(last_prep).c_str());
    seq::observe(last_prep);
  });
  if (p == 0) { S q, want; for (int i = 1; i <= 120; i++) { q += "?,"; want += "$" + std::to_string(i) + ","; } seq::begin_s("120 parameters"); world(); std::unique_ptr<connection> c(postgresql::connect("host=h")); std::unique_ptr<statement> st(c->prepare(q)); SEQ_CHECK(last_prep == want, "placeholders", "prepared as %s", last_prep.c_str()); }
}
static void reg() {
  setenv("TZ", "UTC", 1); tzset();
#if PROP == 38
  seq::task("arity", 1, 1, [](int, int) { arities<0>(); arities<1>(); arities<2>(); arities<3>(); arities<4>(); arities<5>(); });
  seq::task("connect", 1, 1, [](int, int) { connecting(); });
  seq::task("placeholders", 4, 8, [](int p, int np) { placeholders(p, np); });
  seq::task("conversions", 1, 1, [](int, int) { conversions(); });
  for (int my = 0; my < 2; my++) {
    S n = my ? "mysql " : "postgresql ";
    seq::task(n + "parameters", 12, 12, [=](int p, int np) { send_all(my, p, np); });
    seq::task(n + "rows", 12, 12, [=](int p, int np) { fetch_all(my, p, np); });
  }
#else
  seq::task("blocks", 1, 1, [](int, int) { blocks(); });
  for (int my = 0; my < 2; my++) { S n = my ? "mysql " : "postgresql "; seq::task(n + "histories", 8, 16, [=](int p, int np) { histories(my, p, np); }); }
#endif
}
int main(int argc, char **argv) { return seq::main(argc, argv, reg); }
