#pragma once
extern int errno;
#define EINVAL 22
#define ERANGE 34
#define ENOMEM 12
