// independent image file reader and writer (libpng / libjpeg called directly)
#ifndef IMGIO_H
#define IMGIO_H
#include <png.h>
#include <cstdio>
#include <csetjmp>
#include <jpeglib.h>
#include <vector>
#include <string>
struct Img { unsigned w = 0, h = 0, ch = 0, depth = 8; std::vector<unsigned> v; unsigned& at(unsigned x, unsigned y, unsigned c) { return v[(y * w + x) * ch + c]; } };
inline void png_to_string(png_structp p, png_bytep d, png_size_t n) { ((std::string*)png_get_io_ptr(p))->append((char*)d, n); }
inline std::string png_encode(Img im, bool interlace = false, int color = -1) {
  std::string out; png_structp p = png_create_write_struct(PNG_LIBPNG_VER_STRING, 0, 0, 0); png_infop i = png_create_info_struct(p); png_set_write_fn(p, &out, png_to_string, 0); png_set_compression_level(p, 1);
  int ct = color >= 0 ? color : im.ch == 1 ? PNG_COLOR_TYPE_GRAY : im.ch == 2 ? PNG_COLOR_TYPE_GRAY_ALPHA : im.ch == 3 ? PNG_COLOR_TYPE_RGB : PNG_COLOR_TYPE_RGB_ALPHA;
  png_set_IHDR(p, i, im.w, im.h, im.depth, ct, interlace ? PNG_INTERLACE_ADAM7 : PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT); if (ct == PNG_COLOR_TYPE_PALETTE) { png_color pal[2] = {{0, 0, 0}, {255, 0, 0}}; png_set_PLTE(p, i, pal, 2); } png_write_info(p, i); if (im.depth < 8) png_set_packing(p);
  size_t bpc = im.depth == 16 ? 2 : 1; std::vector<png_byte> d(im.w * im.h * im.ch * bpc); for (size_t k = 0; k < im.v.size(); k++) if (bpc == 2) { d[2 * k] = im.v[k] >> 8; d[2 * k + 1] = im.v[k]; } else d[k] = im.v[k];
  std::vector<png_bytep> rows(im.h); for (unsigned y = 0; y < im.h; y++) rows[y] = &d[y * im.w * im.ch * bpc]; png_write_image(p, rows.data()); png_write_end(p, i); png_destroy_write_struct(&p, &i); return out; }
inline bool png_decode(const std::string& s, Img& im) {
  png_image g; memset(&g, 0, sizeof(g)); g.version = PNG_IMAGE_VERSION; if (!png_image_begin_read_from_memory(&g, s.data(), s.size())) return false; g.format = PNG_FORMAT_RGB; im.w = g.width; im.h = g.height; im.ch = 3; im.depth = 8; std::vector<unsigned char> d(PNG_IMAGE_SIZE(g)); if (!png_image_finish_read(&g, 0, d.data(), 0, 0)) return false; im.v.assign(d.begin(), d.end()); return true; }
inline std::string jpg_encode(Img im, int quality = 100) {
  jpeg_compress_struct c; jpeg_error_mgr e; c.err = jpeg_std_error(&e); jpeg_create_compress(&c); unsigned char* mem = 0; unsigned long n = 0; jpeg_mem_dest(&c, &mem, &n); c.image_width = im.w; c.image_height = im.h; c.input_components = im.ch; c.in_color_space = im.ch == 1 ? JCS_GRAYSCALE : JCS_RGB; jpeg_set_defaults(&c); jpeg_set_quality(&c, quality, TRUE); jpeg_start_compress(&c, TRUE);
  std::vector<unsigned char> row(im.w * im.ch); while (c.next_scanline < im.h) { for (size_t k = 0; k < row.size(); k++) row[k] = im.v[c.next_scanline * row.size() + k]; JSAMPROW r = row.data(); jpeg_write_scanlines(&c, &r, 1); } jpeg_finish_compress(&c); std::string s((char*)mem, n); jpeg_destroy_compress(&c); free(mem); return s; }
inline bool jpg_decode(const std::string& s, Img& im) {
  jpeg_decompress_struct c; jpeg_error_mgr e; c.err = jpeg_std_error(&e); jpeg_create_decompress(&c); jpeg_mem_src(&c, (unsigned char*)s.data(), s.size()); jpeg_read_header(&c, TRUE); jpeg_start_decompress(&c); im.w = c.output_width; im.h = c.output_height; im.ch = c.output_components; im.v.clear(); std::vector<unsigned char> row(im.w * im.ch); while (c.output_scanline < c.output_height) { JSAMPROW r = row.data(); jpeg_read_scanlines(&c, &r, 1); im.v.insert(im.v.end(), row.begin(), row.end()); } jpeg_finish_decompress(&c); jpeg_destroy_decompress(&c); return true; }
#endif
