/* Declarations of the (absent) libcsv interface that lib/ uses, so that its sources can be
 * compiled for verification.  No bodies: calls to these functions have no verified meaning. */
#ifndef VERIF_STUB_CSV_H
#define VERIF_STUB_CSV_H
#include <stdio.h>
#include <unistd.h>
#include <stddef.h>
#include <stdbool.h>
#define CSV_GOOD 0
#define CSV_FAIL -1
#define CSV_EOF 1
#define CSV_RESET 2
enum csv_quote { QUOTE_NONE, QUOTE_ALL, QUOTE_RFC4180, QUOTE_WEAK };
typedef enum csv_quote quote_style;
struct csv_field { const char* data; size_t len; };
struct csv_record { struct csv_field* fields; size_t size; const char* rec; size_t reclen; size_t offset; };
struct csv_reader { int trim; }; struct csv_writer;
struct csv_record* csv_record_new(void);
void csv_record_free(struct csv_record*);
struct csv_record* csv_record_clone(const struct csv_record*);
int csv_get_record(struct csv_reader*, struct csv_record*);
int csv_get_record_to(struct csv_reader*, struct csv_record*, unsigned);
int csv_nparse(struct csv_reader*, struct csv_record*, const char*, size_t);
int csv_nparse_to(struct csv_reader*, struct csv_record*, const char*, size_t, unsigned);
struct csv_reader* csv_reader_new(void);
void csv_reader_free(struct csv_reader*);
int csv_reader_open(struct csv_reader*, const char*);
int csv_reader_open_mmap(struct csv_reader*, const char*);
int csv_reader_close(struct csv_reader*);
int csv_reader_reset(struct csv_reader*);
int csv_reader_seek(struct csv_reader*, size_t);
int csv_reader_goto(struct csv_reader*, const char*);
size_t csv_reader_get_file_size(struct csv_reader*);
const char* csv_reader_get_delim(struct csv_reader*);
void csv_reader_set_delim(struct csv_reader*, const char*);
void csv_reader_set_quote(struct csv_reader*, int);
struct csv_writer* csv_writer_new(void);
void csv_writer_free(struct csv_writer*);
void csv_writer_set_delim(struct csv_writer*, const char*);
void csv_writer_set_terminator(struct csv_writer*, const char*);
void csv_writer_set_quote(struct csv_writer*, int);
void csv_writer_set_file(struct csv_writer*, FILE*);
FILE* csv_writer_get_file(struct csv_writer*);
struct csv_field csv_writer_get_delim_field(struct csv_writer*);
struct csv_field csv_writer_get_terminator_field(struct csv_writer*);
const char* csv_writer_get_filename(struct csv_writer*);
char* csv_writer_take_filename(struct csv_writer*);
const char* csv_writer_export_temp(struct csv_writer*);
int csv_writer_open(struct csv_writer*, const char*);
int csv_writer_close(struct csv_writer*);
int csv_write_field(struct csv_writer*, const struct csv_field*);
int csv_write_record(struct csv_writer*, struct csv_record*);
void csv_perror(void);
#endif
