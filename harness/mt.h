#pragma once
#include <stddef.h>
struct MtFile { bool isOpen; size_t len; char data[4096]; };
extern MtFile mt_files[4]; extern int mt_nfiles, mt_spurious, mt_aioDelays; extern bool mt_ready;
