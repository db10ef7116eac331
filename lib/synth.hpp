// Synthetic xRIT files, written from the format description (LRIT/HRIT mission
// specific implementation, MSG level 1.5 image data format), independently of
// the reader under test.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace synth {

// Big-endian numbers
void p1(std::string& s, size_t pos, unsigned v);
void p2(std::string& s, size_t pos, unsigned v);
void p4(std::string& s, size_t pos, uint32_t v);
void p8(std::string& s, size_t pos, uint64_t v);
void pf4(std::string& s, size_t pos, float v);
void pf8(std::string& s, size_t pos, double v);
std::string be(uint64_t v, unsigned bytes);

// Header records
std::string rec_structure(int bpp, int columns, int lines, int compression);
std::string rec_navigation(const std::string& projection, int32_t cfac, int32_t lfac, int32_t coff, int32_t loff);
std::string rec_datafunc(const std::string& text);
std::string rec_annotation(const std::string& text);
std::string rec_timestamp(unsigned day, uint32_t ms);
std::string rec_text(const std::string& text);
std::string rec_key(unsigned number, uint64_t seed);
std::string rec_segment(unsigned spacecraft, unsigned channel, unsigned seq, unsigned start, unsigned end, unsigned format);
struct LineQuality { int32_t line; unsigned day; uint32_t ms; unsigned validity, radiometric, geometric; };
std::string rec_quality(const std::vector<LineQuality>& lines);
/// Whole file
std::string xrit_file(unsigned type, const std::string& records, const std::string& data);

// Offsets of the records in the prologue and epilogue data fields
enum { PRO_SATELLITE = 0, PRO_ACQUISITION = 60134, PRO_CELESTIAL = 60834, PRO_DESCRIPTION = 386892, PRO_RADIOMETRIC = 386993,
       PRO_GEOMETRIC = 407808, PRO_IMPF = 425461, PRO_SIZE = 445247,
       EPI_STATS = 1, EPI_NAVIGATION = 341, EPI_RADIOMETRIC = 6021, EPI_GEOMETRIC = 377277, EPI_TIMELINESS = 380193, EPI_SIZE = 380325,
       EPI_COVERAGE_VISIR = 293, EPI_COVERAGE_HRV = 309 };

enum { FMT_JPEG = 1, FMT_T4 = 2, FMT_WAVELET = 3 };

/// Day number since 1958-01-01
int day1958(int year, int month, int day);

struct HRVWindows { int ls = 1, ln = 8064, le = 2657, lw = 8224, us = 8065, un = 11136, ue = 1089, uw = 6656; };

/// One image in a directory
struct Image
{
    std::string dir;
    std::string resolution = "H";
    std::string product = "MSG1";       // productid1
    std::string channel = "IR_108";     // productid2
    std::string timing = "200611141200";
    unsigned spacecraft = 321;          // MSG1
    unsigned channel_id = 9;
    int columns = 4;
    int seglines = 464;
    int segments = 8;
    int bpp = 10;
    int format = FMT_WAVELET;
    bool east_first = true;             // stored east to west (CFAC < 0)
    float longitude = 0;
    double slope[12], offset[12];
    float step_visir = 3.0004032f, step_hrv = 1.0001343f;
    unsigned acq_day = 0;               // true repeat cycle start
    uint32_t acq_ms = 0;
    HRVWindows hrv;
    /// sample at a line counted from south (0-based) and a column counted from west
    std::function<unsigned(int south_line, int west_column)> sample;

    Image();
    std::string annotation(const std::string& channel, const std::string& part) const;
    std::string file_name(const std::string& channel, const std::string& part, const std::string& end) const;
    std::string prologue_data() const;
    std::string epilogue_data() const;
    std::string prologue_file() const;
    std::string epilogue_file() const;
    /// seq is 1-based, as in the file
    std::string segment_file(int seq) const;
    std::string segment_name(int number) const;     // file name with that number in it
    std::string short_name() const;
    void write_prologue() const;
    void write_epilogue() const;
    void write_segment(int seq, int number = -1) const;
    void write_all() const;
};

/// Default sample: distinct for close lines and columns, in 1..1023
unsigned pattern(int south_line, int west_column);

}
