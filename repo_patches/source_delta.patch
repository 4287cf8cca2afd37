From e35514bf310f0e4ae5e85250067eee7d8c61215b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:53 +0000
Subject: [PATCH 01/23] fix: y4m: account for the alpha plane of 444alpha
 streams

---
 lib/image/y4m.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/image/y4m.c b/lib/image/y4m.c
index 2053c4c..b576512 100644
--- a/lib/image/y4m.c
+++ b/lib/image/y4m.c
@@ -90,10 +90,10 @@ static void* y4m_reader_open(const char* filename, size_t* width, size_t* height
 			ctx->uv_plane_size = ((*width+1)/2) * ((*height+1)/2) * 2;
 		else if(!strncmp(csp,"422",3))
 			ctx->uv_plane_size = (*width+1)/2 * *height * 2;
-		else if(!strncmp(csp,"444",3))
-			ctx->uv_plane_size = *width * *height * 2;
 		else if(!strcmp(csp,"444alpha"))
 			ctx->uv_plane_size = *width * *height * 3;
+		else if(!strncmp(csp,"444",3))
+			ctx->uv_plane_size = *width * *height * 2;
 		else
 			goto invalid;
 
-- 
2.43.0


From 59535b073a0f0b47c357ddf67575b967d0f6deff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:53 +0000
Subject: [PATCH 02/23] fix: y4m: 411 chroma planes are quarter width and full
 height

---
 lib/image/y4m.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/image/y4m.c b/lib/image/y4m.c
index b576512..fd2c85e 100644
--- a/lib/image/y4m.c
+++ b/lib/image/y4m.c
@@ -86,8 +86,10 @@ static void* y4m_reader_open(const char* filename, size_t* width, size_t* height
 		ctx->uv_plane_size = 0;
 	}
 	else {
-		if(!strncmp(csp,"420",3) || !strncmp(csp,"411",3))
+		if(!strncmp(csp,"420",3))
 			ctx->uv_plane_size = ((*width+1)/2) * ((*height+1)/2) * 2;
+		else if(!strncmp(csp,"411",3))
+			ctx->uv_plane_size = (*width+3)/4 * *height * 2;
 		else if(!strncmp(csp,"422",3))
 			ctx->uv_plane_size = (*width+1)/2 * *height * 2;
 		else if(!strcmp(csp,"444alpha"))
-- 
2.43.0


From 5b25cb92302c9f93e0d2d31d0b2ebf8080bcec3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:53 +0000
Subject: [PATCH 03/23] fix: pfm: seeking by 0 frames must not discard the
 parsed header

---
 lib/image/pfm.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lib/image/pfm.c b/lib/image/pfm.c
index da1f103..9d0d880 100644
--- a/lib/image/pfm.c
+++ b/lib/image/pfm.c
@@ -197,8 +197,6 @@ static bool pfm_reader_seek_frame(void* reader_ctx, uint64_t offset, void(*progr
 			progress(progress_ctx,i+1);
 	}
 
-	ctx->header_consumed = false;
-
 	if(!seekable)
 		free(buf);
 
-- 
2.43.0


From 30c0604ef4e8e77755fa81ccff38e0dc55626bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:53 +0000
Subject: [PATCH 04/23] fix: pfm: seek past each frame by its own size

---
 lib/image/pfm.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/image/pfm.c b/lib/image/pfm.c
index 9d0d880..dada77e 100644
--- a/lib/image/pfm.c
+++ b/lib/image/pfm.c
@@ -171,13 +171,12 @@ static bool pfm_reader_read_frame(void* reader_ctx, float* image, size_t width,
 static bool pfm_reader_seek_frame(void* reader_ctx, uint64_t offset, void(*progress)(void*,uint64_t), void* progress_ctx, size_t width, size_t height, RDError* error) {
 	struct pfm_context* ctx = reader_ctx;
 
-	size_t imgsize = width*height;
-	if(ctx->format == 'F')
-		imgsize *= 3;
+	// frames may differ in format, size for the larger
+	size_t maxsize = width*height*3;
 
 	float* buf = NULL;
-	bool seekable = imgsize*sizeof(float) <= (size_t)LONG_MAX && !fseek(ctx->f,0,SEEK_CUR);
-	if(!seekable && !(buf = malloc(imgsize*sizeof(float)))) {
+	bool seekable = maxsize*sizeof(float) <= (size_t)LONG_MAX && !fseek(ctx->f,0,SEEK_CUR);
+	if(!seekable && !(buf = malloc(maxsize*sizeof(float)))) {
 		*error = RDENOMEM;
 		return false;
 	}
@@ -187,6 +186,7 @@ static bool pfm_reader_seek_frame(void* reader_ctx, uint64_t offset, void(*progr
 		if(!(ret = read_header(ctx,width,height,error)))
 			break;
 
+		size_t imgsize = ctx->format == 'F' ? maxsize : width*height;
 		if((*error = resdet_fskip(ctx->f,imgsize*sizeof(float),buf))) {
 			ret = false;
 			break;
-- 
2.43.0


From e66c3f1303ede7ef1fd1dba74264ca9645edfe8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:53 +0000
Subject: [PATCH 05/23] fix: pgm: reject files without the P5 signature

---
 lib/image/pgm.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/image/pgm.c b/lib/image/pgm.c
index 51e6ed1..ff95d3d 100644
--- a/lib/image/pgm.c
+++ b/lib/image/pgm.c
@@ -50,8 +50,11 @@ static void* pgm_reader_open(const char* filename, size_t* width, size_t* height
 		goto error;
 	}
 
+	char format;
 	if(
-	   fscanf(ctx->f,"P5 ") < 0 ||
+	   fscanf(ctx->f,"P%c",&format) != 1 ||
+	   format != '5' ||
+	   fscanf(ctx->f," ") == EOF ||
 	   !skip_comments(ctx->f) ||
 	   fscanf(ctx->f,"%zu %zu %" SCNu16,width,height,&ctx->depth) != 3 ||
 	   !isspace(fgetc(ctx->f)) ||
-- 
2.43.0


From bceb43789711f4401ded2ffc107a3d6446ec42dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:53 +0000
Subject: [PATCH 06/23] fix: pgm: reject a maximum value of 0 or above 255 that
 wrapped

---
 lib/image/pgm.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/image/pgm.c b/lib/image/pgm.c
index ff95d3d..f29d356 100644
--- a/lib/image/pgm.c
+++ b/lib/image/pgm.c
@@ -5,13 +5,12 @@
 
 #include "image.h"
 
-#include <inttypes.h>
 #include <ctype.h>
 
 struct pgm_context {
 	FILE* f;
 	bool eof;
-	uint16_t depth;
+	size_t depth;
 };
 
 static void pgm_reader_close(void* reader_ctx) {
@@ -56,9 +55,9 @@ static void* pgm_reader_open(const char* filename, size_t* width, size_t* height
 	   format != '5' ||
 	   fscanf(ctx->f," ") == EOF ||
 	   !skip_comments(ctx->f) ||
-	   fscanf(ctx->f,"%zu %zu %" SCNu16,width,height,&ctx->depth) != 3 ||
+	   fscanf(ctx->f,"%zu %zu %zu",width,height,&ctx->depth) != 3 ||
 	   !isspace(fgetc(ctx->f)) ||
-	   ctx->depth > 255
+	   !ctx->depth || ctx->depth > 255
 	) {
 		*error = RDEINVAL;
 		goto error;
-- 
2.43.0


From 23c9999435657a74836f5a406859e5f9a1167425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:53 +0000
Subject: [PATCH 07/23] fix: libjpeg: keep the error manager alive as long as
 the decompressor

---
 lib/image/libjpeg.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/image/libjpeg.c b/lib/image/libjpeg.c
index 346e8aa..02505cd 100644
--- a/lib/image/libjpeg.c
+++ b/lib/image/libjpeg.c
@@ -11,13 +11,15 @@
 #include <jpeglib.h>
 
 static void jerr_emit_message(j_common_ptr cinfo, int msg_level) {}
-static void jerr_error_exit(j_common_ptr cinfo) { longjmp(cinfo->client_data,1); }
+static void jerr_error_exit(j_common_ptr cinfo) { longjmp(*(jmp_buf*)cinfo->client_data,1); }
 static void jerr_reset_error_mgr(j_common_ptr cinfo) {}
 
 struct libjpeg_context {
 	FILE* f;
 	bool eof;
 	struct jpeg_decompress_struct cinfo;
+	struct jpeg_error_mgr err;
+	jmp_buf jmp;
 };
 
 static void libjpeg_reader_close(void* reader_ctx) {
@@ -47,13 +49,15 @@ static void* libjpeg_reader_open(const char* filename, size_t* width, size_t* he
 		return NULL;
 	}
 
-	ctx->cinfo.err = &(struct jpeg_error_mgr){
+	ctx->err = (struct jpeg_error_mgr){
 		.error_exit      = jerr_error_exit,
 		.emit_message    = jerr_emit_message,
 		.reset_error_mgr = jerr_reset_error_mgr
 	};
+	ctx->cinfo.err = &ctx->err;
+	ctx->cinfo.client_data = &ctx->jmp;
 
-	if(setjmp(ctx->cinfo.client_data = (jmp_buf){0})) {
+	if(setjmp(ctx->jmp)) {
 		*error = RDEINVAL;
 		goto error;
 	}
@@ -86,7 +90,7 @@ static bool libjpeg_reader_read_frame(void* reader_ctx, float* image, size_t wid
 		goto end;
 	}
 
-	if(setjmp(ctx->cinfo.client_data = (jmp_buf){0})) {
+	if(setjmp(ctx->jmp)) {
 		*error = RDEINVAL;
 		goto end;
 	}
-- 
2.43.0


From ba80fc9e9e30a93100881895d7332e55942b56b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:53 +0000
Subject: [PATCH 08/23] fix: libpng: enable interlace handling before the row
 reader is set up

---
 lib/image/libpng.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/image/libpng.c b/lib/image/libpng.c
index c2faa7e..08788e1 100644
--- a/lib/image/libpng.c
+++ b/lib/image/libpng.c
@@ -16,6 +16,7 @@ static void pngerr_warning_fn(png_structp png_ptr, png_const_charp warning_msg)
 struct libpng_context {
 	FILE* f;
 	bool eof;
+	int passes;
 	png_structp png_ptr;
 	png_infop info_ptr;
 };
@@ -94,6 +95,8 @@ static void* libpng_reader_open(const char* filename, size_t* width, size_t* hei
 	else if(bit_depth < 8)
 		png_set_expand_gray_1_2_4_to_8(ctx->png_ptr);
 
+	ctx->passes = png_set_interlace_handling(ctx->png_ptr);
+
 	png_read_update_info(ctx->png_ptr,ctx->info_ptr);
 
 	return ctx;
@@ -122,9 +125,7 @@ static bool libpng_reader_read_frame(void* reader_ctx, float* image, size_t widt
 		goto end;
 	}
 
-	int passes = png_set_interlace_handling(ctx->png_ptr);
-
-	for(int i = 0; i < passes; i++) {
+	for(int i = 0; i < ctx->passes; i++) {
 		unsigned char* it = imagec;
 		for(size_t y = 0; y < height; y++, it += width * channels)
 			png_read_row(ctx->png_ptr,it,NULL);
-- 
2.43.0


From 45828edab4d88216c970299c01966405de45caa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:10 +0000
Subject: [PATCH 09/23] fix: kissfft: release the second axis when plan
 creation runs out of memory

---
 lib/transform/kiss_fft.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/transform/kiss_fft.c b/lib/transform/kiss_fft.c
index c2d8edf..478c105 100644
--- a/lib/transform/kiss_fft.c
+++ b/lib/transform/kiss_fft.c
@@ -83,12 +83,12 @@ void resdet_transform(resdet_plan* p) {
 
 void resdet_free_plan(resdet_plan* p) {
 	if(p) {
-		free(p->cfg[0]);
-		free(p->shift[0]);
-		if(p->width != p->height) {
+		if(p->cfg[1] != p->cfg[0])
 			free(p->cfg[1]);
+		if(p->shift[1] != p->shift[0])
 			free(p->shift[1]);
-		}
+		free(p->cfg[0]);
+		free(p->shift[0]);
 		free(p->mirror);
 		free(p->F);
 		free(p);
-- 
2.43.0


From d2c4d0597e92dc58fa419ef8dbf530b2d6be0121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:10 +0000
Subject: [PATCH 10/23] fix: read_image: report no images when the buffer is
 released on error

---
 lib/image.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/image.c b/lib/image.c
index 6fb0ac3..9f685b1 100644
--- a/lib/image.c
+++ b/lib/image.c
@@ -244,6 +244,7 @@ RESDET_API RDError resdet_read_image(const char* filename, const char* filetype,
 	if(error) {
 		free(*images);
 		*images = NULL;
+		*nimages = 0;
 	}
 
 	resdet_close_image(image);
-- 
2.43.0


From 00e2c1948befb9c2e88d41c7712a6d39aa082e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:10 +0000
Subject: [PATCH 11/23] fix: magickwand: fail the read when pixels cannot be
 exported

---
 lib/image/magickwand.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/image/magickwand.c b/lib/image/magickwand.c
index 0cb4f2b..72cebf2 100644
--- a/lib/image/magickwand.c
+++ b/lib/image/magickwand.c
@@ -82,7 +82,10 @@ static bool magickwand_reader_read_frame(void* reader_ctx, float* image, size_t
 	if(MagickNextImage(ctx->wand) == MagickFalse)
 		return false;
 
-	MagickExportImagePixels(ctx->wand,0,0,width,height,"I",FloatPixel,image);
+	if(MagickExportImagePixels(ctx->wand,0,0,width,height,"I",FloatPixel,image) == MagickFalse) {
+		*error = RDEINVAL;
+		return false;
+	}
 	return true;
 }
 
-- 
2.43.0


From 76ed02896422fec480d8e89f319e09ae81ccf265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:10 +0000
Subject: [PATCH 12/23] fix: mag: a ratio that overflows is not a match

---
 lib/methods.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/methods.c b/lib/methods.c
index 637dc5d..af838af 100644
--- a/lib/methods.c
+++ b/lib/methods.c
@@ -30,9 +30,8 @@ static RDError detect_method_magnitude(const coeff* restrict f, size_t length, s
 		rdint_storage mag_match = 0;
 		for(rdint_index y = 0; y < n; y++)
 			for(rdint_index i = 1; i <= range; i++) {
-				int e;
-				mi(frexp)(f[y*stride+x*dist-i*dist]/mc(copysign)(MAX(mc(fabs)(f[y*stride+x*dist+i*dist]),EPSILON),f[y*stride+x*dist+i*dist])+1,&e);
-				mag_match += e <= 0;
+				coeff diff = f[y*stride+x*dist-i*dist]/mc(copysign)(MAX(mc(fabs)(f[y*stride+x*dist+i*dist]),EPSILON),f[y*stride+x*dist+i*dist])+1;
+				mag_match += mc(fabs)(diff) < 1;
 			}
 		result[x-*start] += mag_match / ((intermediate)n*range);
 	}
-- 
2.43.0


From 0ae11ffaa215ffd01198be2100de800d175bf7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:28 +0000
Subject: [PATCH 13/23] fix: MagickWand: reading past the end returned the last
 frame again

---
 lib/image/magickwand.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/image/magickwand.c b/lib/image/magickwand.c
index 72cebf2..5549457 100644
--- a/lib/image/magickwand.c
+++ b/lib/image/magickwand.c
@@ -19,6 +19,7 @@
 
 struct magickwand_context {
 	MagickWand* wand;
+	bool eof;
 };
 
 static void magickwand_reader_close(void* reader_ctx) {
@@ -37,6 +38,7 @@ static void* magickwand_reader_open(const char* filename, size_t* width, size_t*
 	}
 
 	ctx->wand = NewMagickWand();
+	ctx->eof = false;
 	if(MagickReadImage(ctx->wand,filename) == MagickFalse) {
 		ExceptionType ex;
 		char* exception = MagickGetException(ctx->wand,&ex);
@@ -76,10 +78,17 @@ error:
 	return NULL;
 }
 
+// MagickNextImage returns the last image again if called after having reached the end
+static bool next_image(struct magickwand_context* ctx) {
+	if(!ctx->eof)
+		ctx->eof = MagickNextImage(ctx->wand) == MagickFalse;
+	return !ctx->eof;
+}
+
 static bool magickwand_reader_read_frame(void* reader_ctx, float* image, size_t width, size_t height, RDError* error) {
 	struct magickwand_context* ctx = reader_ctx;
 
-	if(MagickNextImage(ctx->wand) == MagickFalse)
+	if(!next_image(ctx))
 		return false;
 
 	if(MagickExportImagePixels(ctx->wand,0,0,width,height,"I",FloatPixel,image) == MagickFalse) {
@@ -92,7 +101,7 @@ static bool magickwand_reader_read_frame(void* reader_ctx, float* image, size_t
 static bool magickwand_reader_seek_frame(void* reader_ctx, uint64_t offset, void(*progress)(void*,uint64_t), void* progress_ctx, size_t width, size_t height, RDError* error) {
 	struct magickwand_context* ctx = reader_ctx;
 	for(uint64_t i = 0; i < offset; i++) {
-		if(MagickNextImage(ctx->wand) == MagickFalse)
+		if(!next_image(ctx))
 			return false;
 		if(progress)
 			progress(progress_ctx,i+1);
-- 
2.43.0


From d9d142f4791ece99260c228845782e99ed30b3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:31 +0000
Subject: [PATCH 14/23] fix: FFmpeg: errors when setting up the decoder were
 misreported

---
 lib/image/ffmpeg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/image/ffmpeg.c b/lib/image/ffmpeg.c
index df03733..848aa9a 100644
--- a/lib/image/ffmpeg.c
+++ b/lib/image/ffmpeg.c
@@ -76,7 +76,7 @@ static void* ffmpeg_reader_open(const char* filename, size_t* width, size_t* hei
 		*error = RDENOMEM;
 		goto error;
 	}
-	if((averr = avcodec_parameters_to_context(ctx->codec, ctx->fmt->streams[ctx->stream_index]->codecpar) < 0))
+	if((averr = avcodec_parameters_to_context(ctx->codec, ctx->fmt->streams[ctx->stream_index]->codecpar)) < 0)
 		goto error;
 
 	if((averr = avcodec_open2(ctx->codec,dec,NULL)))
@@ -109,7 +109,7 @@ static void* ffmpeg_reader_open(const char* filename, size_t* width, size_t* hei
 	return ctx;
 
 error:
-	if(averr)
+	if(averr < 0)
 		*error = rderror_from_averror(averr);
 
 	ffmpeg_reader_close(ctx);
-- 
2.43.0


From 3e10e934f5511227872f5f02f83e6613cb6b2cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:35 +0000
Subject: [PATCH 15/23] fix: FFmpeg: frames whose size differs from the first
 were misread

---
 lib/image/ffmpeg.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/image/ffmpeg.c b/lib/image/ffmpeg.c
index 848aa9a..f970a85 100644
--- a/lib/image/ffmpeg.c
+++ b/lib/image/ffmpeg.c
@@ -137,6 +137,9 @@ static bool ffmpeg_reader_read_frame(void* reader_ctx, float* image, size_t widt
 	struct ffmpeg_context* ctx = reader_ctx;
 
 	int averr = read_frame(ctx);
+	// the scaler is set up for frames of the initial size
+	if(!averr && (ctx->swsframe->width != (int)width || ctx->swsframe->height != (int)height))
+		averr = AVERROR_INVALIDDATA;
 	if(averr || (averr = sws_scale_frame(ctx->sws,ctx->frame,ctx->swsframe)) < 0)
 		goto averror;
 
-- 
2.43.0


From 6cf690cff1eb4ff958d3e96602e768b0960312f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:24 +0000
Subject: [PATCH 16/23] fix: python: invalid parameters were silently ignored
 or wrapped around

---
 bindings/python/resdet.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/bindings/python/resdet.py b/bindings/python/resdet.py
index 4f7f154..86c4301 100755
--- a/bindings/python/resdet.py
+++ b/bindings/python/resdet.py
@@ -299,12 +299,27 @@ def _dict_to_rdparameters(parameters: dict) -> RDParametersPtr:
         raise Exception(f"Unrecognized parameters {', '.join(extra_keys)}")
 
     rdparameters = libresdet.resdet_alloc_default_parameters()
-    if "range" in parameters:
-        libresdet.resdet_parameters_set_range(rdparameters, parameters["range"])
-    if "threshold" in parameters:
-        libresdet.resdet_parameters_set_threshold(rdparameters, parameters["threshold"])
-    if "compression_filter" in parameters:
-        libresdet.resdet_parameters_set_compression_filter(rdparameters, parameters["compression_filter"])
+    if not rdparameters:
+        raise _rderror_to_exception(Error.NOMEM)
+
+    try:
+        err = Error.OK
+        if "range" in parameters:
+            # ctypes doesn't do overflow checking, so make sure the value is representable
+            if ctypes.c_size_t(parameters["range"]).value != parameters["range"]:
+                raise _rderror_to_exception(Error.PARAM)
+            err = err or libresdet.resdet_parameters_set_range(rdparameters, parameters["range"])
+        if "threshold" in parameters:
+            err = err or libresdet.resdet_parameters_set_threshold(rdparameters, parameters["threshold"])
+        if "compression_filter" in parameters:
+            if ctypes.c_uint8(parameters["compression_filter"]).value != parameters["compression_filter"]:
+                raise _rderror_to_exception(Error.PARAM)
+            err = err or libresdet.resdet_parameters_set_compression_filter(rdparameters, parameters["compression_filter"])
+        if err:
+            raise _rderror_to_exception(err)
+    except:
+        libc.free(rdparameters)
+        raise
 
     return rdparameters
 
-- 
2.43.0


From 2f248a5355e98016e48042adba4a5ccc6cacc7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:24 +0000
Subject: [PATCH 17/23] fix: python: buffers for several images were allocated
 for one, and failure was not noticed

---
 bindings/python/resdet.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bindings/python/resdet.py b/bindings/python/resdet.py
index 86c4301..7acae46 100755
--- a/bindings/python/resdet.py
+++ b/bindings/python/resdet.py
@@ -101,7 +101,10 @@ class ImageBuffer:
 
     @classmethod
     def with_dimensions(cls, width: int, height: int, nimages: int = 1) -> "ImageBuffer":
-        imagebuffer = cls(ctypes.cast(libc.malloc(width*height*ctypes.sizeof(ctypes.c_float)), ctypes.POINTER(ctypes.c_float)))
+        data = libc.malloc(width*height*nimages*ctypes.sizeof(ctypes.c_float))
+        if not data:
+            raise _rderror_to_exception(Error.NOMEM)
+        imagebuffer = cls(ctypes.cast(data, ctypes.POINTER(ctypes.c_float)))
         imagebuffer.width = width
         imagebuffer.height = height
         imagebuffer.nimages = nimages
-- 
2.43.0


From 74aad2e22bdfea41a8f16e3c119cdc40c014efdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:24 +0000
Subject: [PATCH 18/23] fix: python: negative indices read memory before the
 image buffer

---
 bindings/python/resdet.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bindings/python/resdet.py b/bindings/python/resdet.py
index 7acae46..e06393e 100755
--- a/bindings/python/resdet.py
+++ b/bindings/python/resdet.py
@@ -122,16 +122,16 @@ class ImageBuffer:
                 raise Exception("Too many coordinates for image: {index}")
             if len(index) < 3:
                 index = (0,) + index
-            if index[0] >= self.nimages:
+            if index[0] < 0 or index[0] >= self.nimages:
                 raise IndexError(f"Frame index {index[0]} is out of range for {self.nimages} images")
-            if index[1] >= self.height:
+            if index[1] < 0 or index[1] >= self.height:
                 raise IndexError(f"y index {index[1]} is out of range for height {self.height}")
-            if index[2] >= self.width:
+            if index[2] < 0 or index[2] >= self.width:
                 raise IndexError(f"x index {index[2]} is out of range for width {self.width}")
 
             index = (index[0] * self.height + index[1]) * self.width + index[2]
 
-        if index >= self.width * self.height * self.nimages:
+        if index < 0 or index >= self.width * self.height * self.nimages:
             raise IndexError(f"Index {index} is out of bounds for size {self.width}x{self.height}x{self.nimages}")
         return self.data[index]
 
-- 
2.43.0


From d3d989c947bc1f06bedf854f2f696d9894d2a04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:24 +0000
Subject: [PATCH 19/23] fix: python: a closed image buffer was still passed as
 its released memory

---
 bindings/python/resdet.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bindings/python/resdet.py b/bindings/python/resdet.py
index e06393e..a403e4e 100755
--- a/bindings/python/resdet.py
+++ b/bindings/python/resdet.py
@@ -97,7 +97,10 @@ class ImageBuffer:
 
     def __init__(self, buffer: Optional[c_float_ptr] = None) -> None:
         self.data = buffer if buffer else ctypes.POINTER(ctypes.c_float)()
-        self._as_parameter_ = self.data
+
+    @property
+    def _as_parameter_(self) -> c_float_ptr:
+        return self.data
 
     @classmethod
     def with_dimensions(cls, width: int, height: int, nimages: int = 1) -> "ImageBuffer":
-- 
2.43.0


From ae4430cdade4edb0abb99e9a91dcde07b45ad148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:24 +0000
Subject: [PATCH 20/23] fix: python: opening an image into a used buffer leaked
 its memory

---
 bindings/python/resdet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bindings/python/resdet.py b/bindings/python/resdet.py
index a403e4e..b14063a 100755
--- a/bindings/python/resdet.py
+++ b/bindings/python/resdet.py
@@ -161,6 +161,8 @@ class Image:
         width = ctypes.c_size_t()
         height = ctypes.c_size_t()
         err = ctypes.c_int()
+        if buffer:
+            buffer.close() # replaced by a buffer for this image
         buf = ctypes.byref(buffer.data) if buffer else None
         if image_reader:
             self._rdimage = libresdet.resdet_open_image_with_reader(str(filename).encode("utf-8"), image_reader.encode("utf-8"), width, height, buf, err)
-- 
2.43.0


From 73f1fd7890f8bf4b0ac6924bde7db9d61d0d75a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:35 +0000
Subject: [PATCH 21/23] fix: python: ndarrays that aren't contiguous float32
 were passed to the library as if they were

---
 bindings/python/resdet_numpy.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bindings/python/resdet_numpy.py b/bindings/python/resdet_numpy.py
index 6e3d630..4761925 100644
--- a/bindings/python/resdet_numpy.py
+++ b/bindings/python/resdet_numpy.py
@@ -23,11 +23,15 @@ class Image(resdet.Image):
             return ret
         raise StopIteration
 
+# libresdet takes contiguous C floats, while arrays may be of any type and layout
+def _ndarray_as_float_ptr(image: numpy.ndarray):
+    return numpy.ascontiguousarray(image, dtype = numpy.float32).ctypes.data_as(ctypes.POINTER(ctypes.c_float))
+
 @Analysis.analyze_image.register
 def _(self, image: numpy.ndarray) -> None:
-    self.analyze_image(image.ctypes.data_as(ctypes.POINTER(ctypes.c_float)))
+    self.analyze_image(_ndarray_as_float_ptr(image))
 
 @resdetect.register
 def _(image: numpy.ndarray, method: Optional[Method] = None, parameters: dict = {}) -> dict:
     nimages = image.shape[2] if len(image.shape) > 2 else 1
-    return resdetect(image.ctypes.data_as(ctypes.POINTER(ctypes.c_float)), nimages, image.shape[0], image.shape[1], method, parameters)
+    return resdetect(_ndarray_as_float_ptr(image), nimages, image.shape[0], image.shape[1], method, parameters)
-- 
2.43.0


From 2c72397bc9e6264fb44a988ab98c00cd57e24c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:35 +0000
Subject: [PATCH 22/23] fix: python: width and height of ndarrays were swapped,
 scrambling images that aren't square

---
 bindings/python/resdet.py       | 5 +++--
 bindings/python/resdet_numpy.py | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/bindings/python/resdet.py b/bindings/python/resdet.py
index b14063a..b8d149f 100755
--- a/bindings/python/resdet.py
+++ b/bindings/python/resdet.py
@@ -114,9 +114,10 @@ class ImageBuffer:
         return imagebuffer
 
     def shape(self):
-        shape = (self.width, self.height)
+        # in the order of __getitem__, with the rows contiguous
+        shape = (self.height, self.width)
         if self.nimages > 1:
-            shape += (self.nimages,)
+            shape = (self.nimages,) + shape
         return shape
 
     def __getitem__(self, index):
diff --git a/bindings/python/resdet_numpy.py b/bindings/python/resdet_numpy.py
index 4761925..21eca55 100644
--- a/bindings/python/resdet_numpy.py
+++ b/bindings/python/resdet_numpy.py
@@ -33,5 +33,5 @@ def _(self, image: numpy.ndarray) -> None:
 
 @resdetect.register
 def _(image: numpy.ndarray, method: Optional[Method] = None, parameters: dict = {}) -> dict:
-    nimages = image.shape[2] if len(image.shape) > 2 else 1
-    return resdetect(_ndarray_as_float_ptr(image), nimages, image.shape[0], image.shape[1], method, parameters)
+    nimages, height, width = image.shape if image.ndim > 2 else (1, *image.shape)
+    return resdetect(_ndarray_as_float_ptr(image), nimages, width, height, method, parameters)
-- 
2.43.0


From 851e7ef2ad25431f4713e9829cacc6290966a02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:45 +0000
Subject: [PATCH 23/23] fix: python: PIL images with frames of differing sizes
 were read out of bounds

---
 bindings/python/resdet_PIL.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bindings/python/resdet_PIL.py b/bindings/python/resdet_PIL.py
index 889747f..1e699cc 100644
--- a/bindings/python/resdet_PIL.py
+++ b/bindings/python/resdet_PIL.py
@@ -1,3 +1,4 @@
+import resdet
 import resdet_numpy
 from resdet_numpy import resdetect, Analysis, Method, Image
 
@@ -24,7 +25,8 @@ def _(self, image: PIL.Image.Image) -> None:
 
 @resdetect.register
 def _(image: PIL.Image.Image, method: Optional[Method] = None, parameters: dict = {}) -> dict:
-    analysis = Analysis(image.width, image.height, method, parameters)
+    size = (image.width, image.height)
+    analysis = Analysis(*size, method, parameters)
     frameno = prev_frame = image.tell()
     while True:
         try:
@@ -32,6 +34,9 @@ def _(image: PIL.Image.Image, method: Optional[Method] = None, parameters: dict
             frameno += 1
         except EOFError:
             break;
+        # frames may differ in size, e.g. the pages of a TIFF
+        if (image.width, image.height) != size:
+            raise resdet.InvalidImageError("Image frames differ in size")
         analysis.analyze_image(image)
 
     image.seek(prev_frame)
-- 
2.43.0

