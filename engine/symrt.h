// Interface between harness code and the concolic runtime.  In the plain (replay)
// build every function degenerates to the identity / a numeric recorder.
#pragma once
extern "C" {
double sym_input(const char *name, double v);          // fresh symbolic variable with concrete value v
void sym_output(const char *name, double v);           // observable double
void sym_output_int(const char *name, long v);         // observable integer (concrete on the path)
void sym_begin(void);                                   // reset for a new run
void sym_end(const char *tag);                          // finish run, report
void sym_mark(const char *name);                        // marker in the path condition
}
