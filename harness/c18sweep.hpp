#pragma once
#include <vector>
typedef void sweep_fn( int, unsigned char*, unsigned char* );
struct sweep_entry { char const* name; sweep_fn* f; void (*setup)(); };
std::vector<sweep_entry>& sweeps();
struct sweep_reg { sweep_reg( char const* n, sweep_fn* f, void (*s)() ) { sweep_entry e = { n, f, s }; sweeps().push_back( e ); } };
