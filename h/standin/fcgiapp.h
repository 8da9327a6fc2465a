/* Stand-in for the part of the FastCGI library (fcgiapp.h) that the code can use. */
#ifndef H_STANDIN_FCGIAPP_H_
#define H_STANDIN_FCGIAPP_H_
#include <stdarg.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct FCGX_Stream { int kind; } FCGX_Stream;
typedef char **FCGX_ParamArray;
typedef struct FCGX_Request { int requestId, role; FCGX_Stream *in, *out, *err; char **envp; } FCGX_Request;
int FCGX_IsCGI(void);
int FCGX_Init(void);
int FCGX_InitRequest(FCGX_Request *r, int sock, int flags);
int FCGX_Accept(FCGX_Stream **in, FCGX_Stream **out, FCGX_Stream **err, FCGX_ParamArray *envp);
int FCGX_Accept_r(FCGX_Request *r);
void FCGX_Finish(void);
void FCGX_Finish_r(FCGX_Request *r);
char *FCGX_GetParam(const char *name, FCGX_ParamArray envp);
int FCGX_GetChar(FCGX_Stream *s);
int FCGX_UnGetChar(int c, FCGX_Stream *s);
int FCGX_GetStr(char *p, int n, FCGX_Stream *s);
int FCGX_HasSeenEOF(FCGX_Stream *s);
int FCGX_PutChar(int c, FCGX_Stream *s);
int FCGX_PutStr(const char *p, int n, FCGX_Stream *s);
int FCGX_PutS(const char *p, FCGX_Stream *s);
int FCGX_FFlush(FCGX_Stream *s);
int FCGX_FClose(FCGX_Stream *s);
int FCGX_GetError(FCGX_Stream *s);
void FCGX_ClearError(FCGX_Stream *s);
void FCGX_SetExitStatus(int status, FCGX_Stream *s);
#ifdef __cplusplus
}
#endif
#endif
