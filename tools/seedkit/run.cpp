// run.cpp: compiles and runs one script, prints what it prints.  usage: run script.c [stackSize] [maxContinues]
#include "wrench.h"
#include <stdio.h>
#include <stdlib.h>
static void println(WRContext*, const WRValue* argv, const int argn, WRValue&, void*)
{ char b[1024]; for( int i=0; i<argn; i++ ) printf( "%s ", argv[i].asString(b,1000) ); printf( "\n" ); }
int main( int argc, char** argv )
{
	static char src[1<<20]; FILE* f = fopen( argv[1], "rb" ); int n = fread( src, 1, sizeof(src), f ); fclose( f );
	WRState* w = wr_newState( argc > 2 ? atoi(argv[2]) : 128 );
	wr_loadAllLibs( w ); wr_registerFunction( w, "println", println );
	unsigned char* out = 0; int len = 0;
	WRError e = wr_compile( src, n, &out, &len );
	if ( e ) { printf( "compile error %d\n", (int)e ); return 0; }
	WRContext* c = wr_run( w, out, len, true );
	printf( "ctx %d err %d\n", c != 0, (int)w->err );
	for( int i=0; c && i<(argc>3?atoi(argv[3]):1000) && wr_getYieldInfo(c,0,0,0); i++ ) wr_continue( c );
	if ( c && w->err ) printf( "late err %d\n", (int)w->err );
	wr_destroyState( w );
	return 0;
}
