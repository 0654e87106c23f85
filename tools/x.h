#include <stdio.h>
#include <stdlib.h>
#include <string.h>
typedef void *P; typedef const char *S;
typedef struct { int type, quant; char *name; unsigned n; void *ch; } XC;
typedef struct { int map[256]; void *data; int (*convert)(void*,S); void (*release)(void*);} XE;
typedef struct { unsigned char suspended_parsing; int s; } unused_t;
typedef struct { int parsing; unsigned char finalBuffer; } XPS;
P XML_ParserCreate(S); P XML_ParserCreateNS(S,char); unsigned char XML_ParserReset(P,S); void XML_ParserFree(P);
int XML_Parse(P,S,int,int); void*XML_GetBuffer(P,int); int XML_ParseBuffer(P,int,int); int XML_StopParser(P,unsigned char); int XML_ResumeParser(P);
int XML_GetErrorCode(P); S XML_ErrorString(int); long XML_GetCurrentByteIndex(P); int XML_GetCurrentByteCount(P);
unsigned long XML_GetCurrentLineNumber(P); unsigned long XML_GetCurrentColumnNumber(P); S XML_GetInputContext(P,int*,int*);
void XML_SetUserData(P,void*); int XML_SetBase(P,S); S XML_GetBase(P); int XML_SetEncoding(P,S); int XML_UseForeignDTD(P,unsigned char);
void XML_UseParserAsHandlerArg(P); void XML_SetReturnNSTriplet(P,int); int XML_SetParamEntityParsing(P,int); int XML_SetHashSalt(P,unsigned long);
int XML_GetSpecifiedAttributeCount(P); int XML_GetIdAttributeIndex(P);
P XML_ExternalEntityParserCreate(P,S,S); void XML_GetParsingStatus(P,XPS*);
void XML_SetElementHandler(P,void(*)(void*,S,S*),void(*)(void*,S)); void XML_SetStartElementHandler(P,void(*)(void*,S,S*)); void XML_SetEndElementHandler(P,void(*)(void*,S));
void XML_SetCharacterDataHandler(P,void(*)(void*,S,int)); void XML_SetProcessingInstructionHandler(P,void(*)(void*,S,S)); void XML_SetCommentHandler(P,void(*)(void*,S));
void XML_SetCdataSectionHandler(P,void(*)(void*),void(*)(void*)); void XML_SetDefaultHandler(P,void(*)(void*,S,int)); void XML_SetDefaultHandlerExpand(P,void(*)(void*,S,int));
void XML_SetDoctypeDeclHandler(P,void(*)(void*,S,S,S,int),void(*)(void*)); void XML_SetUnparsedEntityDeclHandler(P,void(*)(void*,S,S,S,S,S));
void XML_SetNotationDeclHandler(P,void(*)(void*,S,S,S,S)); void XML_SetNamespaceDeclHandler(P,void(*)(void*,S,S),void(*)(void*,S));
void XML_SetStartNamespaceDeclHandler(P,void(*)(void*,S,S)); void XML_SetEndNamespaceDeclHandler(P,void(*)(void*,S));
void XML_SetNotStandaloneHandler(P,int(*)(void*)); void XML_SetExternalEntityRefHandler(P,int(*)(P,S,S,S,S)); void XML_SetExternalEntityRefHandlerArg(P,void*);
void XML_SetSkippedEntityHandler(P,void(*)(void*,S,int)); void XML_SetUnknownEncodingHandler(P,int(*)(void*,S,XE*),void*);
void XML_SetElementDeclHandler(P,void(*)(void*,S,XC*)); void XML_SetAttlistDeclHandler(P,void(*)(void*,S,S,S,S,int)); void XML_SetEntityDeclHandler(P,void(*)(void*,S,int,S,int,S,S,S,S));
void XML_SetXmlDeclHandler(P,void(*)(void*,S,S,int)); void XML_DefaultCurrent(P); void XML_FreeContentModel(P,XC*);
static char LOG[65536]; static int LN;
#define L(...) (LN += snprintf(LOG+LN, sizeof LOG-LN, __VA_ARGS__))
static int expect(S want){ if(strcmp(LOG,want)){ printf("GOT  [%s]\nWANT [%s]\n",LOG,want); return 1;} return 0; }
