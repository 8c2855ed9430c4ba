/* gives the object files of the test tool and the player a module identity of their own (their globals have the names of the command line client's) */
#ifdef __cplusplus
#ifndef PROGRAM_MARKER
#define PROGRAM_MARKER traxtest_marker
#endif
extern "C" int PROGRAM_MARKER; int PROGRAM_MARKER = 1;
#endif
