// An independent reading of the WAV layout, and a generator of well-formed and malformed byte streams.
#pragma once
#include "common.h"
#include "wav_reader.h"
#include "misc_audio.h"
typedef std::string Bytes;
static uint32_t U(const Bytes& b, uint64_t p, int k) { uint32_t v = 0; for (int i = 0; i < k; i++) v |= (uint32_t)(uint8_t)b[p + i] << (8 * i); return v; }
struct Wav { bool ok = false; uint32_t ch = 0, rate = 0, size = 0; uint64_t pcm = 0; };
static Wav oracle(const Bytes& b) {
  Wav w; uint64_t n = b.size();
  if (n < 36 || b.substr(0, 4) != "RIFF" || b.substr(8, 4) != "WAVE" || b.substr(12, 4) != "fmt ") return w;
  uint32_t f = U(b, 16, 4), fmt = U(b, 20, 2); w.ch = U(b, 22, 2); w.rate = U(b, 24, 4);
  if (f < 16 || U(b, 34, 2) != 16 || w.ch == 0 || (fmt != 1 && fmt != 0xfffe)) return w;
  uint64_t p = 36;
  if (f != 16) { if (n < 38) return w; p = 38 + (uint64_t)U(b, 36, 2); if (p > n) return w; }
  if (fmt == 0xfffe) { if (p + 8 > n || b.substr(p, 4) != "fact") return w; p += 8 + (uint64_t)U(b, p + 4, 4); if (p > n) return w; }
  for (;;) {
    if (p + 8 > n) return w;
    if (b.substr(p, 4) == "data") break;
    uint64_t q = p + 8 + (uint64_t)U(b, p + 4, 4);
    if (q > n) return w;
    p = q;
  }
  w.size = U(b, p + 4, 4); w.pcm = p + 8;
  w.ok = w.size != 0 && w.size % 2 == 0;
  return w;
}
static void put(Bytes& b, uint32_t v, int k) { for (int i = 0; i < k; i++) b += (char)(v >> (8 * i)); }
static Bytes junk(int n) { Bytes b; for (int i = 0; i < n; i++) b += (char)ri(0, 255); return b; }
// mode 0: well formed and complete; 1: well formed, perhaps truncated; 2: anything
static Bytes make(int mode, int maxframes = 40) {
  Bytes b = "RIFF"; put(b, (uint32_t)rnd(), 4); b += "WAVEfmt ";
  bool ext = coin(), fact = ri(0, 3) == 0; int ch = ri(0, 2) ? ri(1, 3) : ri(1, 70);
  int rates[] = {8000, 16000, 22050, 44100, 48000, 96000};
  uint32_t f = ext ? (ri(0, 1) ? 18 : ri(17, 60)) : 16;
  if (mode == 2 && ri(0, 15) == 0) f = ri(0, 40);
  if (mode == 2 && ri(0, 15) == 0) f = (uint32_t)rnd();
  put(b, f, 4); put(b, fact ? 0xfffe : mode == 2 && ri(0, 12) == 0 ? ri(0, 65535) : 1, 2);
  put(b, mode == 2 && ri(0, 12) == 0 ? 0 : ch, 2);
  put(b, ri(0, 5) ? rates[ri(0, 5)] : (uint32_t)ri(0, 0x7fffffff), 4); put(b, (uint32_t)rnd(), 4); put(b, (uint32_t)rnd(), 2);
  put(b, mode == 2 && ri(0, 5) == 0 ? ri(0, 40) : 16, 2);
  if (f != 16) { int x = ri(0, 2) ? ri(0, 24) : 0; if (ri(0, 20) == 0) x = ri(32760, 40000); put(b, x, 2); b += junk(mode == 2 && ri(0, 8) == 0 ? ri(0, x) : x); }
  if (fact) { b += mode == 2 && ri(0, 6) == 0 ? "fbct" : "fact"; int x = ri(0, 1) ? 4 : ri(0, 30); put(b, mode == 2 && ri(0, 10) == 0 ? (uint32_t)rnd() : x, 4); b += junk(x); }
  for (int k = ri(0, 1) ? 0 : ri(1, 4); k > 0; k--) {
    const char* ids[] = {"LIST", "bext", "dat ", "DATA", "ddta", "fact", "atad"};
    b += ids[ri(0, 6)]; int x = ri(0, 40); put(b, mode == 2 && ri(0, 10) == 0 ? (uint32_t)rnd() : x, 4); b += junk(x);
  }
  int samples = ri(0, maxframes) * ch; if (ri(0, 6) == 0) samples = ri(0, maxframes);
  if (mode < 2 && samples == 0) samples = ch;
  b += mode == 2 && ri(0, 15) == 0 ? "dxta" : "data";
  put(b, mode == 2 && ri(0, 6) == 0 ? 2 * samples + ri(0, 3) : 2 * samples, 4);
  for (int i = 0; i < samples; i++) put(b, ri(0, 8) ? (uint32_t)rnd() : ri(0, 1) ? 0x8000 : 0x7fff, 2);
  if (ri(0, 1)) { b += coin() ? "LIST" : "data"; int x = ri(0, 30); put(b, x, 4); b += junk(x); }
  if (mode == 2 && ri(0, 5) == 0) b[ri(0, std::min<long>(b.size() - 1, 60))] = (char)ri(0, 255);
  if (mode >= 1 && ri(0, 3) == 0) b.resize(ri(0, b.size()));
  return b;
}
static int16_t sample(const Bytes& b, const Wav& w, uint64_t i) { return (int16_t)U(b, w.pcm + 2 * i, 2); }
