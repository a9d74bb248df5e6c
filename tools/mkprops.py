#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so that the statements are reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe_at, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                               observe_at=observe_at, hook_needed=hook)))

prop("R01", "Every row is delivered exactly once, in file order, under its own index",
 "For every well-formed file, reading it to the end pushes exactly row_count rows (or all the rows its pages hold, if fewer) to the sink, in file order, the i-th one (from 0) under row index i and with the bytes of the i-th stored row. "
 "This holds whatever mix of data, mix, compressed-metadata, amendment and unknown pages the rows are spread over, including pages that hold no row, and whatever the number of rows per page.",
 ["inputs", "configurations"],
 "every sequence of pages (data/mix/meta-with-rows/amd/unknown, any row count per page including 0), every declared row count, both widths and byte orders, compressed and not",
 "Tests read 177 fixed files written by real SAS versions and sample a few rows of each; page sequences with empty pages, rows split between a metadata page and later pages, row counts below or above the stored rows, or more than 255 rows per page at chosen boundaries do not occur or are not asserted.",
 ["src/data.hpp", "src/page.hpp", "src/reader-impl.hpp", "src/metadata.hpp"],
 [("READ_DATA::next/read_next_page/build_page", "src/data.hpp"), ("PAGE::meta_type, data_type, mix_type", "src/data.hpp"), ("Reader::impl::read_row", "src/reader-impl.hpp")],
 ["Sink.push_row(index, buffer)", "Reader::read_all()"],
 [("current_row", "rows consumed so far", "src/data.hpp"), ("page / current_row_on_page", "page being delivered and position on it", "src/data.hpp")])

prop("R02", "Any sequence of read and skip calls yields the same row stream",
 "For any sequence of read_row, read_rows(n), read_all, skip(n) and read_row_no_sink calls on a reader, the rows consumed are consecutive: a skipped row counts as consumed, nothing is re-delivered, and current_row_index() always equals the number of rows consumed. "
 "read_row returns true iff it pushed a row, read_rows(n)/skip(n) return true iff n rows were pushed/skipped (so n=0 is true and consumes nothing), and read_row_no_sink returns the next row's bytes without touching the sink, or null at the end.",
 ["histories", "inputs"],
 "every finite history of reading calls with every argument, over every page layout",
 "The tests use a handful of fixed call sequences (read_all, or a few skips); histories that mix the calls, cross a page boundary inside a skip, use n=0 or go past the end are not sampled.",
 ["include/cppsas7bdat/reader.hpp", "src/reader.cpp", "src/reader-impl.hpp", "src/data.hpp"],
 [("ReaderImpl::skip/read_row/read_row_no_sink", "src/reader-impl.hpp"), ("impl::read_rows/read_all", "src/reader-impl.hpp"), ("READ_DATA::skip/_read_line", "src/data.hpp")],
 ["return values of the Reader methods", "Reader::current_row_index()", "Sink.push_row"],
 [("current_row", "rows consumed so far", "src/data.hpp")])

prop("R03", "The sink protocol: properties first, then rows, end_of_data only at the end",
 "A sink receives set_properties exactly once, before anything else and with the properties the reader itself exposes; then one push_row per row read through the sink, while the row's buffer stays valid for the duration of the call. "
 "end_of_data is delivered exactly once by each read_row, read_rows, read_all or skip call that runs out of rows and by each explicit end_of_data() call, never by any other call and never before the last row.",
 ["histories", "inputs"],
 "every history of calls, including calls after the end and explicit end_of_data, over every file",
 "The tests' sinks ignore end_of_data or count it for one call sequence; they cannot see a missing, duplicated or early notification in other histories.",
 ["src/reader-impl.hpp", "src/reader.cpp", "include/cppsas7bdat/reader.hpp"],
 [("impl constructor -> set_properties", "src/reader-impl.hpp"), ("ReaderImpl::read_row/skip -> end_of_data", "src/reader-impl.hpp"), ("DatasetSinkModel forwarding", "include/cppsas7bdat/reader.hpp")],
 ["Sink.set_properties", "Sink.push_row", "Sink.end_of_data"])

prop("R04", "The data source is read once, forward, and only as far as needed",
 "A reader requests the bytes of its source strictly in order and never twice: the header, then whole pages of the announced page length. "
 "After each call it has consumed exactly the header and the pages up to the one holding the last row consumed (metadata pages when opening), so opening or reading the first rows of a large file does not read the rest, and nothing is read any more once row_count rows were consumed.",
 ["histories", "inputs"],
 "every history of calls over every file, observed through a user-supplied data source",
 "Tests use only the ifstream source over complete files and never look at what was requested from it.",
 ["src/page.hpp", "src/header.hpp", "src/data.hpp", "src/buffer.hpp"],
 [("READ_PAGE::read_page", "src/page.hpp"), ("READ_HEADER::set_header_length_and_read", "src/header.hpp"), ("READ_DATA::next", "src/data.hpp")],
 ["DataSource.read_bytes / eof calls made on a custom source"])

prop("R05", "Truncated files and failing sources never produce invented or repeated rows",
 "If the source ends within the header, opening is refused with an exception; if it ends within the metadata pages, the file is refused or has no rows; any later end yields exactly the rows of the complete pages before it, followed by an ordinary end of data. "
 "If the source fails without being at its end, the call that needed the page reports an exception; rows already delivered are unaffected and no row is delivered from a page that was not completely read.",
 ["fault_sequences", "crash_points", "inputs"],
 "every cut position and every failing read (by index, with and without end-of-file indication) over every file and call history",
 "One test truncates one header; the fault positions are as many as the bytes of the file.",
 ["src/page.hpp", "src/header.hpp", "src/data.hpp", "include/cppsas7bdat/source/ifstream.hpp"],
 [("READ_PAGE::read_page eof/cannot_read_page", "src/page.hpp"), ("CHECK_HEADER header_too_short", "src/header.hpp"), ("ifstream::read_bytes", "include/cppsas7bdat/source/ifstream.hpp")],
 ["exceptions out of Reader constructor and read calls", "rows pushed"])

prop("R06", "Malformed input is refused with an exception, never a crash or invented data",
 "Opening or reading any byte sequence either works or throws a std::exception to the caller: the process is never terminated, no memory outside the file's pages is read or written, and no call runs forever. "
 "In particular a wrong magic number, a header or page length too small for its own fields, a subheader, text block, column or row that lies outside its page or row, and a compressed row whose commands overrun the row or lack their operands are refused with an exception, and every row delivered before that is the one stored.",
 ["inputs", "fault_sequences"],
 "every mutation of every length, offset, count and type field of a file, at every boundary value",
 "Two tests check two exceptions; the space of corrupt fields is unbounded, and a corrupt file that happens not to fault leaves no trace in a test.",
 ["src/buffer.hpp", "src/header.hpp", "src/page.hpp", "src/metadata.hpp", "src/data.hpp", "src/decompressors.hpp", "src/exceptions.cpp"],
 [("MBUFFER::assert_check", "src/buffer.hpp"), ("READ_PAGE::_get_page_subheader", "src/page.hpp"), ("DST_VALUES::assert_check", "src/decompressors.hpp"), ("check_magic_number", "src/header.hpp")],
 ["exceptions out of Reader constructor and read calls", "exit status of the process", "rows pushed"])

prop("R07", "Readers are independent, movable values; an empty reader is inert",
 "Any number of readers, over the same or different files, used in any interleaving produce exactly what each would produce alone. "
 "Moving a reader at any moment transfers its whole state, so reading continues unchanged, the properties and columns obtained from it stay usable, and a default-constructed or moved-from reader returns false/null/0/empty from every call and notifies no sink.",
 ["schedules", "histories", "configurations"],
 "every interleaving of calls on several readers with moves (construction and assignment) at any point",
 "The tests use one reader at a time and never move one after opening.",
 ["src/reader.cpp", "src/reader-impl.hpp", "include/cppsas7bdat/reader.hpp", "src/sas7bdat-impl.hpp", "include/cppsas7bdat/column.hpp"],
 [("Reader PIMPL and move operations", "src/reader.cpp"), ("ReaderImpl set_pheader/set_pmetadata", "src/reader-impl.hpp"), ("null-pimpl guards", "src/reader.cpp")],
 ["all Reader methods on several objects"])

prop("D01", "RLE (SASYZCRL) rows decompress to exactly the bytes they encode",
 "Every row of an RLE-compressed file (compress=char) is delivered as exactly row_length bytes: the concatenation of what its commands stand for (literal runs, repeated byte, '@', blank and zero runs, each with its documented length rule), independent of how the writer split the row into commands, with the remainder of a short row zero-filled. "
 "Rows stored uncompressed in the same file are delivered verbatim, and no row depends on the rows decompressed before it.",
 ["inputs", "programs"],
 "every sequence of the 13 commands with every length nibble/extension byte and every operand, including commands in last position and runs that end exactly at the row end",
 "Tests decompress two hand-written streams and the corpus files; most command/length combinations, streams that end in a one-byte command, and rows following longer rows never occur.",
 ["src/decompressors.hpp", "src/data.hpp"],
 [("RLE::operator()", "src/decompressors.hpp"), ("READ_DATA::extract_row_values", "src/data.hpp"), ("DST_VALUES::fill", "src/decompressors.hpp")],
 ["Sink.push_row", "Reader::read_row_no_sink()"],
 [("i_dst/i_src", "write and read position", "src/decompressors.hpp")])

prop("D02", "RDC (SASYZCR2) rows decompress to exactly the bytes they encode",
 "Every row of an RDC-compressed file (compress=binary) is delivered as exactly row_length bytes: the result of executing its control words' commands (literal, short and long repeat, short and long back-reference), where a back-reference may overlap the bytes it produces, independent of how the writer chose the commands and with the remainder of a short row zero-filled. "
 "Rows stored uncompressed in the same file are delivered verbatim, and no row depends on the rows decompressed before it.",
 ["inputs", "programs"],
 "every sequence of commands over every control word boundary, offset, count and operand, including a stream ending right after any command",
 "Tests decompress two hand-written streams and the corpus files; overlapping or maximal back-references, control words exactly exhausted, and final one- or two-byte remainders do not occur or are not asserted.",
 ["src/decompressors.hpp", "src/data.hpp"],
 [("RDC::operator()", "src/decompressors.hpp"), ("RDC::store_pattern", "src/decompressors.hpp"), ("READ_DATA::extract_row_values", "src/data.hpp")],
 ["Sink.push_row", "Reader::read_row_no_sink()"],
 [("ctrl_mask/ctrl_bits", "control word being consumed", "src/decompressors.hpp")])

prop("H01", "Header properties are those stored in the file",
 "For every file the reader exposes the stored width (32/64 bit), byte order, platform, character encoding name, dataset name, file type, creation and modification time, SAS release, server type, OS type and OS name (falling back to the OS maker field when empty), header length, page length and page count, each taken from its documented place for every combination of the alignment flags, strings without their padding. "
 "The encoding is the one SAS assigns to the stored code; a code without a character set of its own is reported as the SAS default, WINDOWS-1252.",
 ["inputs", "configurations"],
 "every combination of width, both alignment flags, byte order, platform byte, encoding byte (256) and field contents",
 "Tests compare the headers of corpus files only; 64-bit and alignment combinations, multi-byte lengths above 65535 and most of the encoding codes do not occur.",
 ["src/header.hpp", "src/encodings.cpp", "src/types.hpp", "include/cppsas7bdat/properties.hpp"],
 [("READ_HEADER::set_header", "src/header.hpp"), ("CHECK_HEADER::set_aligns_endianness", "src/header.hpp"), ("get_encoding", "src/encodings.cpp")],
 ["Reader::properties()"])

prop("M01", "Column names, labels, formats and order are those stored in the file",
 "The columns exposed by the reader are the file's columns in their stored order, each with its own name, label and format text, without surrounding blanks and padding, whichever text block of the file holds them (a text block precedes the names that refer to it). "
 "The result does not depend on how the column subheaders are split and distributed over metadata, mix and amendment pages, on the number of columns or on the number and size of text blocks.",
 ["inputs", "configurations"],
 "every distribution of the subheaders over pages, every number of columns and text blocks, every text offset and length",
 "The tests check a few column names of corpus files, where text blocks and name blocks are laid out in the one way the writer uses.",
 ["src/metadata.hpp", "src/page.hpp", "include/cppsas7bdat/column.hpp"],
 [("process_COLUMN_NAME/TEXT/ATTRIBUTES/FORMAT_AND_LABEL_SUBHEADER", "src/metadata.hpp"), ("get_column_text_substr", "src/metadata.hpp"), ("create_columns", "src/metadata.hpp")],
 ["Reader::properties().columns[i].name/label/format"])

prop("M02", "A column's type follows from its stored type, length and format alone",
 "Each column is exposed with the type its stored attributes determine: character columns as string; numeric columns of 1 or 2 bytes as integer; numeric columns of 3 to 8 bytes as datetime, date or time when their format name is exactly one of the known datetime, date or time formats and as number otherwise; anything else as unknown, and with its stored length. "
 "A column of one type answers the accessors of the other types with that type's empty value (temporal columns also answer as the number they store) and never with another column's bytes.",
 ["inputs", "configurations"],
 "every (stored type, length, format name) combination, including near-miss format names",
 "Tests use the formats occurring in the corpus, about a dozen of the 86 known names, and no near-misses.",
 ["src/metadata.hpp", "src/formatters.hpp", "include/cppsas7bdat/column.hpp"],
 [("create_columns", "src/metadata.hpp"), ("COLUMN_DATETIME_FORMAT/COLUMN_DATE_FORMAT/COLUMN_TIME_FORMAT", "src/metadata.hpp"), ("IFormatter defaults", "src/formatters.hpp")],
 ["Column::type, Column::length()", "Column::get_*"])

prop("M03", "Dataset-level metadata are those stored in the file",
 "The reader exposes the stored row length, row count, column count (and its two parts), rows-per-mix-page count, compression method and creator/creator-procedure text of the file, at full width whatever metadata pages they lie on (the row-size subheader before the first text block). "
 "The compression method is the one named in the file's first text block and nothing else in the file changes it.",
 ["inputs", "configurations"],
 "every value of the row-size, column-size and first text subheaders in both widths and byte orders",
 "Tests compare corpus values, which fit in 32 bits and come in a fixed subheader order.",
 ["src/metadata.hpp", "include/cppsas7bdat/properties.hpp"],
 [("process_ROW_SIZE_SUBHEADER", "src/metadata.hpp"), ("process_COLUMN_SIZE_SUBHEADER", "src/metadata.hpp"), ("process_COLUMN_TEXT_SUBHEADER", "src/metadata.hpp")],
 ["Reader::properties()"])

prop("V01", "Numeric cells decode to exactly the stored value",
 "A number cell of 3 to 8 bytes is delivered as the IEEE double whose most significant bytes are the stored ones and whose missing low bytes are zero, in either byte order, bit for bit (signed zeros, subnormals and missing-value NaNs included); a 1-byte integer cell as its unsigned value and a 2-byte one as its signed value. "
 "The value depends only on the cell's own bytes, for every column offset and every neighbouring content, and the number accessor of an integer column agrees with its integer accessor.",
 ["inputs", "configurations"],
 "every bit pattern, cell length, byte order, column offset and neighbouring cell",
 "Tests check a few dozen values of the corpus; truncated doubles in both byte orders next to non-zero neighbours, negative 2-byte integers and NaN payloads are not sampled.",
 ["src/formatters.hpp", "src/types.hpp", "src/metadata.hpp"],
 [("DoubleFormatter, IncompleteDoubleFormatter, IntegerFormatter, SmallIntegerFormatter", "src/formatters.hpp"), ("get_incomplete_double, get_double", "src/types.hpp")],
 ["Column::get_number/get_integer/to_string on a delivered row"])

prop("V02", "Date, time and datetime cells decode to the instant they encode",
 "A date cell is delivered as 1960-01-01 plus its number of days, a datetime cell as 1960-01-01T00:00:00 plus its number of seconds to the nearest microsecond, a time cell as the time of day of its number of seconds; negative values lie before the epoch and a missing value (NaN) is delivered as not-a-date(-time). "
 "This holds over the whole supported calendar (years 1400-9999), for every stored length from 3 to 8 bytes and either byte order, and the header's timestamps follow the same rule.",
 ["inputs"],
 "every representable number of days/seconds/microseconds, sign, stored length and byte order",
 "Tests check a few corpus dates, all with 8-byte cells and almost all after 1960 and without fractions.",
 ["src/types.hpp", "src/formatters.hpp", "src/types.cpp"],
 [("get_datetime_from_epoch, get_date_from_epoch, get_time_from_epoch", "src/types.hpp"), ("DateTimeFormatter, DateFormatter, TimeFormatter", "src/formatters.hpp")],
 ["Column::get_datetime/get_date/get_time/to_string on a delivered row"])

prop("V03", "Character cells are delivered verbatim without their trailing padding",
 "A character cell is delivered as its stored bytes up to the last one that is neither NUL nor white space: leading blanks, interior blanks and NULs and all non-ASCII bytes are kept, in their order, for every cell length and position in the row. "
 "A cell holding only padding is the empty string, and the text never includes bytes of a neighbouring column.",
 ["inputs"],
 "every byte content and length of a cell, at every offset, next to any neighbour",
 "Tests compare the strings of corpus files, which are blank padded ASCII or UTF-8 text without leading blanks or NULs.",
 ["src/types.hpp", "src/formatters.hpp"],
 [("get_string_trim_0", "src/types.hpp"), ("StringFormatter", "src/formatters.hpp")],
 ["Column::get_string/to_string on a delivered row"])

prop("F01", "Column filters select exactly the named columns and nothing else changes",
 "With an include list exactly the columns whose name is listed are kept; with an exclude list exactly those not listed; with both, a non-empty include list decides alone, else the exclude list does; two empty lists keep everything; a user-defined filter is asked about every column once, in order. "
 "The kept columns stay in file order with the same names, types and values as without a filter, rows are delivered in the same number, and names match exactly (case and length).",
 ["inputs", "configurations"],
 "every subset of names (including unknown and duplicate ones) over every column set, and every row",
 "Tests call accept() for a few names and filter a single corpus file by one column.",
 ["include/cppsas7bdat/filter/column.hpp", "src/metadata.hpp"],
 [("Include/Exclude/IncludeExclude::accept", "include/cppsas7bdat/filter/column.hpp"), ("create_columns add_column", "src/metadata.hpp")],
 ["Reader::properties().columns", "rows delivered"])

prop("L01", "The physical layout of a dataset does not change what is read",
 "One and the same dataset - columns with names, labels, formats and types, and rows of values - is read identically from every file that stores it: 32 or 64 bit, either byte order, any alignment flags, uncompressed, RLE or RDC, any header and page length, any distribution of subheaders and rows over pages. "
 "Only the properties that describe the layout itself may differ.",
 ["inputs", "configurations"],
 "every combination of layout choices for every dataset",
 "The corpus holds the same dataset in a few layouts only, each written by a SAS release with its own fixed choices.",
 ["src/sas7bdat-impl.hpp", "src/metadata.hpp", "src/page.hpp", "src/data.hpp", "src/decompressors.hpp"],
 [("variant of READ_DATA<endian,format,decompressor>", "src/sas7bdat-impl.hpp"), ("PAGE_CONSTANT, METADATA_CONSTANT", "src/page.hpp, src/metadata.hpp")],
 ["Reader::properties().columns", "cell values of delivered rows"])

prop("S01", "The CSV sink writes one faithful line per row",
 "The CSV sink writes one header line with the quoted column names and then exactly one line per row pushed, in order, with one field per column in column order: strings in quotes with inner quotes doubled, numbers and integers in a decimal form that reads back to the same value, dates and times in their standard form, missing numbers as empty fields. "
 "It works the same over a caller's stream and over a file name, whose file holds the complete text once the reader is destroyed.",
 ["inputs", "histories"],
 "every column set, cell value and number of rows, to a stream or to a file",
 "No test looks at the output of the CSV sink.",
 ["include/cppsas7bdat/sink/csv.hpp"],
 [("detail::csv::push_row/print", "include/cppsas7bdat/sink/csv.hpp"), ("csv_ofstream", "include/cppsas7bdat/sink/csv.hpp")],
 ["text written to the stream or file"])

prop("S02", "The print sink shows the properties, then every row with its index",
 "The print sink writes the file's properties and columns, a header line with every column's name, and then one line per row pushed: the row index followed by one text field per column, in column order, each the text form of that cell. "
 "It never fails on legal content: any column name, any missing number, date, time or datetime is printed.",
 ["inputs", "histories"],
 "every column name, type and cell value, with any number of rows and any reading history",
 "No test looks at the output of the print sink.",
 ["include/cppsas7bdat/sink/print.hpp", "src/formatters.hpp", "src/types.cpp"],
 [("print::set_properties/push_row", "include/cppsas7bdat/sink/print.hpp"), ("Formatter::to_string", "src/formatters.hpp")],
 ["text written to the stream", "Column::to_string"])

prop("C01", "The command line tool converts each file and never harms its input",
 "For each file named on its command line, in order, cppsas7bdat-ci print writes to standard output what the print sink shows (at most the requested number of rows), csv writes the CSV form to a file next to the input whose name is the input's with its extension replaced by csv, and null reads everything and writes nothing; messages go elsewhere. "
 "A command that cannot do this for a file (it is missing or malformed, the output cannot be written, or the output would be an input under any name) ends with a failure status, and a command that could ends with success. "
 "No command ever modifies, truncates or removes an input file, or touches a file that is not the CSV form of one it was given.",
 ["inputs", "histories", "configurations"],
 "every command, every list of files (names with several, leading or no dots, in directories with dots, linked names, repeated names) and every --nlines value",
 "The tool has no test.",
 ["apps/cppsas7bdat-ci.cpp"],
 [("process_csv, get_csv_filename", "apps/cppsas7bdat-ci.cpp"), ("process_print", "apps/cppsas7bdat-ci.cpp")],
 ["standard output and the files in the working directory"])

prop("P01", "Python sinks receive every row once and build exactly the dataset",
 "From Python, a row sink's push_row is called once per row with its index and one value per column in column order; a chunk sink's push_rows with consecutive, non-overlapping row ranges covering exactly the rows read, of the requested size except the last of a run, each with per-column arrays of that many values; and a whole-data sink holds per column all the rows read. "
 "This holds for every mix of read, skip and end_of_data calls, and the data already handed out stay unchanged by later reading and outlive the reader.",
 ["histories", "inputs"],
 "every history of calls, every chunk size and number of rows, every column set",
 "The only Python test that runs checks the version; the sink test needs pandas and reads corpus files with read_all only.",
 ["python/pycppsas7bdat/cpp/sink.hpp", "python/pycppsas7bdat/cpp/reader.cpp", "python/pycppsas7bdat/sink.py"],
 [("SinkChunk/SinkData/Sink", "python/pycppsas7bdat/cpp/sink.hpp")],
 ["push_row/push_rows/end_of_data of Python sink objects"])

prop("P02", "The Python binding delivers the same properties, values and results as C++",
 "Properties, columns and every cell seen from Python equal what the C++ reader delivers: names, labels and properties as str, string cells as their bytes, numbers as float, integers as int, datetimes, dates and times as datetime, date and time objects to the microsecond, missing dates and times as None and missing numbers as NaN. "
 "Reader methods return the same results as in C++, and any failure reaches Python as an exception, never as a crash.",
 ["inputs", "histories"],
 "every cell value and type, every property, every call history including failing ones",
 "No Python test compares values with an independent source.",
 ["python/pycppsas7bdat/cpp/reader.cpp", "python/pycppsas7bdat/cpp/import_datetime.cpp", "python/pycppsas7bdat/cpp/pycppsas7bdat.cpp", "python/pycppsas7bdat/cpp/sink.hpp"],
 [("value converters", "python/pycppsas7bdat/cpp/sink.hpp"), ("datetime conversion", "python/pycppsas7bdat/cpp/import_datetime.cpp")],
 ["attributes and arguments seen by Python code"])

prop("Q01", "R sinks receive every row once and build exactly the dataset",
 "From R, a row sink's push_row is called once per row with its index and one named value per column in column order; a chunk sink's push_rows with consecutive, non-overlapping row ranges covering exactly the rows read, of the requested size except the last of a run; and a whole-data sink's data frame holds all the rows read. "
 "This holds for every mix of read, skip and end_of_data calls, and data already handed to R stay unchanged by later reading.",
 ["histories", "inputs"],
 "every history of calls, every chunk size and number of rows, every column set",
 "The R tests read whole corpus files with one chunk size and compare with reference data; they do not mix skips, reads and repeated ends.",
 ["R/CPPSAS7BDAT/src/sink_by_columns.hpp", "R/CPPSAS7BDAT/src/sink_chunk.hpp", "R/CPPSAS7BDAT/src/sink_data.hpp", "R/CPPSAS7BDAT/src/sink.hpp", "R/CPPSAS7BDAT/src/sink_base.hpp", "R/CPPSAS7BDAT/R/sink.R"],
 [("Sink/SinkChunk/SinkData", "R/CPPSAS7BDAT/src/")],
 ["push_row/push_rows/end_of_data of R sink objects, the data frame"])

prop("Q02", "The R binding delivers the same properties, values and results as C++",
 "Properties, columns and every cell seen from R equal what the C++ reader delivers, strings as character, numbers and integers as numeric, datetimes, dates and times as the text the C++ reader prints, missing ones as NA or NULL. "
 "Column filters select the same columns as in C++, reader methods return the same results, and any failure reaches R as an error, never as a crash.",
 ["inputs", "histories"],
 "every cell value and type, every property, every filter and call history",
 "The R tests compare a few files with values stored in the repository.",
 ["R/CPPSAS7BDAT/src/reader.cpp", "R/CPPSAS7BDAT/src/filter.cpp", "R/CPPSAS7BDAT/src/wrap_properties.hpp", "R/CPPSAS7BDAT/src/sink_base.hpp", "R/CPPSAS7BDAT/R/read_sas.R"],
 [("wrap_properties", "R/CPPSAS7BDAT/src/wrap_properties.hpp"), ("column filters", "R/CPPSAS7BDAT/src/filter.cpp")],
 ["values seen by R code"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
