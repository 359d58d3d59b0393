// all layer classes in representative configurations, with the shapes they accept
#ifndef LAYERKINDS_H
#define LAYERKINDS_H
#include "util.h"
struct Kind { std::string name; unsigned inputs; std::function<Layer*()> make; std::function<bool(const std::vector<Shape>&, std::vector<Shape>&)> valid; bool nobp = false; };
static bool one(const std::vector<Shape>& in) { return in.size() == 1; }
static std::vector<Kind> kinds() {
  std::vector<Kind> k; auto U = [](unsigned a) { return std::to_string(a); };
  struct CP { unsigned kw, kh, m, sx, sy, px, py, g; }; static const std::vector<CP> conv = {{1,1,1,1,1,0,0,1},{2,1,2,1,1,0,0,1},{1,3,2,1,1,0,0,2},{3,2,2,2,1,1,0,1},{2,3,4,1,2,0,1,2},{3,3,1,3,3,1,1,1},{4,4,3,2,2,0,0,1},{2,2,4,1,1,1,1,4}};
  for (auto& p : conv) k.push_back({"convolution " + U(p.kw) + "x" + U(p.kh) + " kernels " + U(p.m) + " stride " + U(p.sx) + "x" + U(p.sy) + " pad " + U(p.px) + "x" + U(p.py) + " group " + U(p.g), 1, [=] { return new ConvolutionLayer(p.kw, p.kh, p.m, p.sx, p.sy, p.px, p.py, p.g, 1); },
    [=](const std::vector<Shape>& i, std::vector<Shape>& o) { if (!one(i) || i[0].w + 2 * p.px < p.kw || i[0].h + 2 * p.py < p.kh || i[0].m % p.g) return false; o = {Shape{i[0].s, (i[0].w + 2 * p.px - p.kw) / p.sx + 1, (i[0].h + 2 * p.py - p.kh) / p.sy + 1, p.m}}; return true; }});
  struct PP { unsigned w, h, sx, sy; }; for (PP p : std::vector<PP>{{1,1,0,0},{2,1,0,0},{1,3,0,0},{2,2,0,0},{3,2,0,0},{0,1,0,0},{2,0,0,0}}) k.push_back({"maxpooling " + U(p.w) + "x" + U(p.h), 1, [=] { return new MaxPoolingLayer(p.w, p.h); }, [=](const std::vector<Shape>& i, std::vector<Shape>& o) { if (!one(i) || !p.w || !p.h || i[0].w % p.w || i[0].h % p.h) return false; o = {Shape{i[0].s, i[0].w / p.w, i[0].h / p.h, i[0].m}}; return true; }});
  for (PP p : std::vector<PP>{{1,1,1,1},{2,1,1,1},{1,3,2,1},{2,2,1,2},{3,2,2,2},{2,2,3,1},{0,1,1,1},{2,2,0,1},{2,2,1,0},{4,1,1,1},{1,1,2,3}}) k.push_back({"amaxpooling " + U(p.w) + "x" + U(p.h) + " stride " + U(p.sx) + "x" + U(p.sy), 1, [=] { return new AdvancedMaxPoolingLayer(p.w, p.h, p.sx, p.sy); }, [=](const std::vector<Shape>& i, std::vector<Shape>& o) { if (!one(i) || !p.w || !p.h || !p.sx || !p.sy || i[0].w < p.w || i[0].h < p.h) return false; o = {Shape{i[0].s, (i[0].w - p.w) / p.sx + 1, (i[0].h - p.h) / p.sy + 1, i[0].m}}; return true; }});
  auto same = [](const std::vector<Shape>& i, std::vector<Shape>& o) { if (!one(i)) return false; o = {i[0]}; return true; };
  k.push_back({"tanh", 1, [] { return new TanhLayer(); }, same}); k.push_back({"sigm", 1, [] { return new SigmoidLayer(); }, same}); k.push_back({"relu", 1, [] { return new ReLULayer(); }, same}); k.push_back({"softmax", 1, [] { return new SoftmaxLayer(); }, same, true});
  k.push_back({"hmax", 1, [] { return new HMaxActivationFunction(0.5, 0.1); }, same});
  for (unsigned n : {1u, 2u, 3u, 5u}) for (int m = 0; m < 2; m++) k.push_back({"lrn " + U(n) + (m ? " across" : " within"), 1, [=] { return new LocalResponseNormalizationLayer(n, 0.5, 0.75, m ? LocalResponseNormalizationLayer::ACROSS_CHANNELS : LocalResponseNormalizationLayer::WITHIN_CHANNELS); }, same});
  for (PP p : std::vector<PP>{{0,0,0,0},{1,0,0,0},{0,2,0,0},{3,1,0,0}}) k.push_back({"resize " + U(p.w) + "x" + U(p.h), 1, [=] { return new ResizeLayer(p.w, p.h); }, [=](const std::vector<Shape>& i, std::vector<Shape>& o) { if (!one(i)) return false; o = {Shape{i[0].s, i[0].w + p.w, i[0].h + p.h, i[0].m}}; return true; }});
  for (PP p : std::vector<PP>{{1,1,0,0},{2,1,0,0},{1,3,0,0},{2,2,0,0},{0,1,0,0},{1,0,0,0}}) { k.push_back({"upscale " + U(p.w) + "x" + U(p.h), 1, [=] { return new UpscaleLayer(p.w, p.h); }, [=](const std::vector<Shape>& i, std::vector<Shape>& o) { if (!one(i)) return false; o = {Shape{i[0].s, i[0].w * p.w, i[0].h * p.h, i[0].m}}; return true; }});
    k.push_back({"downsampling " + U(p.w) + "x" + U(p.h), 1, [=] { return new InputDownSamplingLayer(p.w, p.h); }, [=](const std::vector<Shape>& i, std::vector<Shape>& o) { if (!one(i) || !p.w || !p.h || i[0].w % p.w || i[0].h % p.h) return false; o = {Shape{i[0].s, i[0].w / p.w, i[0].h / p.h, i[0].m}}; return true; }, true}); }
  k.push_back({"spatialprior", 1, [] { return new SpatialPriorLayer(); }, [](const std::vector<Shape>& i, std::vector<Shape>& o) { if (!one(i)) return false; o = {Shape{i[0].s, i[0].w, i[0].h, i[0].m + 2}}; return true; }});
  for (unsigned n : {0u, 1u, 2u, 3u}) k.push_back({"gradientaccumulation " + U(n), 1, [=] { return new GradientAccumulationLayer(n); }, [=](const std::vector<Shape>& i, std::vector<Shape>& o) { if (!one(i)) return false; o.assign(n, i[0]); return true; }});
  k.push_back({"sum", 2, [] { return new SumLayer(); }, [](const std::vector<Shape>& i, std::vector<Shape>& o) { if (i.size() != 2 || !(i[0] == i[1])) return false; o = {i[0]}; return true; }});
  k.push_back({"concat", 2, [] { return new ConcatenationLayer(); }, [](const std::vector<Shape>& i, std::vector<Shape>& o) { if (i.size() != 2 || i[0].s != i[1].s || i[0].w != i[1].w || i[0].h != i[1].h) return false; o = {Shape{i[0].s, i[0].w, i[0].h, i[0].m + i[1].m}}; return true; }});
  auto stat = [](unsigned classes) { return [=](const std::vector<Shape>& i, std::vector<Shape>& o) { if (i.size() != 3 || !(i[0] == i[1]) || (classes && i[0].m != classes) || i[2].s != i[0].s || i[2].w != i[0].w || i[2].h != i[0].h || i[2].m != 1) return false; o = {}; return true; }; };
  k.push_back({"error", 3, [] { return new ErrorLayer(); }, stat(0)}); k.push_back({"binarystat", 3, [] { return new BinaryStatLayer(3, -1, 1); }, stat(1)}); for (unsigned n : {1u, 2u, 3u}) k.push_back({"confusionmatrix " + U(n), 3, [=] { return new ConfusionMatrixLayer(std::vector<std::string>(n, "c"), n); }, stat(n)});
  return k; }
static const std::vector<Kind>& K() { static std::vector<Kind> k = kinds(); return k; }
#endif
