// entry point of every harness: hands the data segment to the model checker
#include "vs.h"
extern "C" char __data_start, _end;
int main(int argc, char** argv) { vs_register_data(&__data_start, &_end); return vs_main(argc, argv); }
