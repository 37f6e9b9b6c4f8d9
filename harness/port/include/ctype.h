#pragma once
int isupper(int);
int islower(int);
int isalpha(int);
int isdigit(int);
int isalnum(int);
int isspace(int);
int isxdigit(int);
int toupper(int);
int tolower(int);
