From d4690fff9270326eb92078aed4d158545353fdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 1/6] fix: accept characters beyond the basic multilingual
 plane

The lexer's range for RFC 6532 characters ended at U+FFFF. Characters above
it were dropped from names and addresses without an error, and reported on
the standard error output of the process.
---
 RFC5322Lexer.g4            | 2 +-
 parser/RFC5322Lexer.interp | 2 +-
 parser/rfc5322_lexer.go    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/RFC5322Lexer.g4 b/RFC5322Lexer.g4
index 16d8081..270eea9 100644
--- a/RFC5322Lexer.g4
+++ b/RFC5322Lexer.g4
@@ -51,7 +51,7 @@ Tilde:            '~';      // \u007E
 Delete: '\u007F';
 
 // RFC6532 Extension
-UTF8NonAscii: '\u0080'..'\uFFFF';
+UTF8NonAscii: '\u0080'..'\u{10FFFF}';
 
 A: 'A'|'a';
 B: 'B'|'b';
diff --git a/parser/RFC5322Lexer.interp b/parser/RFC5322Lexer.interp
index 996931d..9a18a24 100644
--- a/parser/RFC5322Lexer.interp
+++ b/parser/RFC5322Lexer.interp
@@ -224,4 +224,4 @@ mode names:
 DEFAULT_MODE
 
 atn:
-[4, 0, 70, 281, 6, -1, 2, 0, 7, 0, 2, 1, 7, 1, 2, 2, 7, 2, 2, 3, 7, 3, 2, 4, 7, 4, 2, 5, 7, 5, 2, 6, 7, 6, 2, 7, 7, 7, 2, 8, 7, 8, 2, 9, 7, 9, 2, 10, 7, 10, 2, 11, 7, 11, 2, 12, 7, 12, 2, 13, 7, 13, 2, 14, 7, 14, 2, 15, 7, 15, 2, 16, 7, 16, 2, 17, 7, 17, 2, 18, 7, 18, 2, 19, 7, 19, 2, 20, 7, 20, 2, 21, 7, 21, 2, 22, 7, 22, 2, 23, 7, 23, 2, 24, 7, 24, 2, 25, 7, 25, 2, 26, 7, 26, 2, 27, 7, 27, 2, 28, 7, 28, 2, 29, 7, 29, 2, 30, 7, 30, 2, 31, 7, 31, 2, 32, 7, 32, 2, 33, 7, 33, 2, 34, 7, 34, 2, 35, 7, 35, 2, 36, 7, 36, 2, 37, 7, 37, 2, 38, 7, 38, 2, 39, 7, 39, 2, 40, 7, 40, 2, 41, 7, 41, 2, 42, 7, 42, 2, 43, 7, 43, 2, 44, 7, 44, 2, 45, 7, 45, 2, 46, 7, 46, 2, 47, 7, 47, 2, 48, 7, 48, 2, 49, 7, 49, 2, 50, 7, 50, 2, 51, 7, 51, 2, 52, 7, 52, 2, 53, 7, 53, 2, 54, 7, 54, 2, 55, 7, 55, 2, 56, 7, 56, 2, 57, 7, 57, 2, 58, 7, 58, 2, 59, 7, 59, 2, 60, 7, 60, 2, 61, 7, 61, 2, 62, 7, 62, 2, 63, 7, 63, 2, 64, 7, 64, 2, 65, 7, 65, 2, 66, 7, 66, 2, 67, 7, 67, 2, 68, 7, 68, 2, 69, 7, 69, 1, 0, 1, 0, 1, 1, 1, 1, 1, 2, 1, 2, 1, 3, 1, 3, 1, 4, 1, 4, 1, 5, 1, 5, 1, 6, 1, 6, 1, 7, 1, 7, 1, 8, 1, 8, 1, 9, 1, 9, 1, 10, 1, 10, 1, 11, 1, 11, 1, 12, 1, 12, 1, 13, 1, 13, 1, 14, 1, 14, 1, 15, 1, 15, 1, 16, 1, 16, 1, 17, 1, 17, 1, 18, 1, 18, 1, 19, 1, 19, 1, 20, 1, 20, 1, 21, 1, 21, 1, 22, 1, 22, 1, 23, 1, 23, 1, 24, 1, 24, 1, 25, 1, 25, 1, 26, 1, 26, 1, 27, 1, 27, 1, 28, 1, 28, 1, 29, 1, 29, 1, 30, 1, 30, 1, 31, 1, 31, 1, 32, 1, 32, 1, 33, 1, 33, 1, 34, 1, 34, 1, 35, 1, 35, 1, 36, 1, 36, 1, 37, 1, 37, 1, 38, 1, 38, 1, 39, 1, 39, 1, 40, 1, 40, 1, 41, 1, 41, 1, 42, 1, 42, 1, 43, 1, 43, 1, 44, 1, 44, 1, 45, 1, 45, 1, 46, 1, 46, 1, 47, 1, 47, 1, 48, 1, 48, 1, 49, 1, 49, 1, 50, 1, 50, 1, 51, 1, 51, 1, 52, 1, 52, 1, 53, 1, 53, 1, 54, 1, 54, 1, 55, 1, 55, 1, 56, 1, 56, 1, 57, 1, 57, 1, 58, 1, 58, 1, 59, 1, 59, 1, 60, 1, 60, 1, 61, 1, 61, 1, 62, 1, 62, 1, 63, 1, 63, 1, 64, 1, 64, 1, 65, 1, 65, 1, 66, 1, 66, 1, 67, 1, 67, 1, 68, 1, 68, 1, 69, 1, 69, 0, 0, 70, 1, 1, 3, 2, 5, 3, 7, 4, 9, 5, 11, 6, 13, 7, 15, 8, 17, 9, 19, 10, 21, 11, 23, 12, 25, 13, 27, 14, 29, 15, 31, 16, 33, 17, 35, 18, 37, 19, 39, 20, 41, 21, 43, 22, 45, 23, 47, 24, 49, 25, 51, 26, 53, 27, 55, 28, 57, 29, 59, 30, 61, 31, 63, 32, 65, 33, 67, 34, 69, 35, 71, 36, 73, 37, 75, 38, 77, 39, 79, 40, 81, 41, 83, 42, 85, 43, 87, 44, 89, 45, 91, 46, 93, 47, 95, 48, 97, 49, 99, 50, 101, 51, 103, 52, 105, 53, 107, 54, 109, 55, 111, 56, 113, 57, 115, 58, 117, 59, 119, 60, 121, 61, 123, 62, 125, 63, 127, 64, 129, 65, 131, 66, 133, 67, 135, 68, 137, 69, 139, 70, 1, 0, 27, 1, 0, 48, 57, 2, 0, 65, 65, 97, 97, 2, 0, 66, 66, 98, 98, 2, 0, 67, 67, 99, 99, 2, 0, 68, 68, 100, 100, 2, 0, 69, 69, 101, 101, 2, 0, 70, 70, 102, 102, 2, 0, 71, 71, 103, 103, 2, 0, 72, 72, 104, 104, 2, 0, 73, 73, 105, 105, 2, 0, 74, 74, 106, 106, 2, 0, 75, 75, 107, 107, 2, 0, 76, 76, 108, 108, 2, 0, 77, 77, 109, 109, 2, 0, 78, 78, 110, 110, 2, 0, 79, 79, 111, 111, 2, 0, 80, 80, 112, 112, 2, 0, 81, 81, 113, 113, 2, 0, 82, 82, 114, 114, 2, 0, 83, 83, 115, 115, 2, 0, 84, 84, 116, 116, 2, 0, 85, 85, 117, 117, 2, 0, 86, 86, 118, 118, 2, 0, 87, 87, 119, 119, 2, 0, 88, 88, 120, 120, 2, 0, 89, 89, 121, 121, 2, 0, 90, 90, 122, 122, 280, 0, 1, 1, 0, 0, 0, 0, 3, 1, 0, 0, 0, 0, 5, 1, 0, 0, 0, 0, 7, 1, 0, 0, 0, 0, 9, 1, 0, 0, 0, 0, 11, 1, 0, 0, 0, 0, 13, 1, 0, 0, 0, 0, 15, 1, 0, 0, 0, 0, 17, 1, 0, 0, 0, 0, 19, 1, 0, 0, 0, 0, 21, 1, 0, 0, 0, 0, 23, 1, 0, 0, 0, 0, 25, 1, 0, 0, 0, 0, 27, 1, 0, 0, 0, 0, 29, 1, 0, 0, 0, 0, 31, 1, 0, 0, 0, 0, 33, 1, 0, 0, 0, 0, 35, 1, 0, 0, 0, 0, 37, 1, 0, 0, 0, 0, 39, 1, 0, 0, 0, 0, 41, 1, 0, 0, 0, 0, 43, 1, 0, 0, 0, 0, 45, 1, 0, 0, 0, 0, 47, 1, 0, 0, 0, 0, 49, 1, 0, 0, 0, 0, 51, 1, 0, 0, 0, 0, 53, 1, 0, 0, 0, 0, 55, 1, 0, 0, 0, 0, 57, 1, 0, 0, 0, 0, 59, 1, 0, 0, 0, 0, 61, 1, 0, 0, 0, 0, 63, 1, 0, 0, 0, 0, 65, 1, 0, 0, 0, 0, 67, 1, 0, 0, 0, 0, 69, 1, 0, 0, 0, 0, 71, 1, 0, 0, 0, 0, 73, 1, 0, 0, 0, 0, 75, 1, 0, 0, 0, 0, 77, 1, 0, 0, 0, 0, 79, 1, 0, 0, 0, 0, 81, 1, 0, 0, 0, 0, 83, 1, 0, 0, 0, 0, 85, 1, 0, 0, 0, 0, 87, 1, 0, 0, 0, 0, 89, 1, 0, 0, 0, 0, 91, 1, 0, 0, 0, 0, 93, 1, 0, 0, 0, 0, 95, 1, 0, 0, 0, 0, 97, 1, 0, 0, 0, 0, 99, 1, 0, 0, 0, 0, 101, 1, 0, 0, 0, 0, 103, 1, 0, 0, 0, 0, 105, 1, 0, 0, 0, 0, 107, 1, 0, 0, 0, 0, 109, 1, 0, 0, 0, 0, 111, 1, 0, 0, 0, 0, 113, 1, 0, 0, 0, 0, 115, 1, 0, 0, 0, 0, 117, 1, 0, 0, 0, 0, 119, 1, 0, 0, 0, 0, 121, 1, 0, 0, 0, 0, 123, 1, 0, 0, 0, 0, 125, 1, 0, 0, 0, 0, 127, 1, 0, 0, 0, 0, 129, 1, 0, 0, 0, 0, 131, 1, 0, 0, 0, 0, 133, 1, 0, 0, 0, 0, 135, 1, 0, 0, 0, 0, 137, 1, 0, 0, 0, 0, 139, 1, 0, 0, 0, 1, 141, 1, 0, 0, 0, 3, 143, 1, 0, 0, 0, 5, 145, 1, 0, 0, 0, 7, 147, 1, 0, 0, 0, 9, 149, 1, 0, 0, 0, 11, 151, 1, 0, 0, 0, 13, 153, 1, 0, 0, 0, 15, 155, 1, 0, 0, 0, 17, 157, 1, 0, 0, 0, 19, 159, 1, 0, 0, 0, 21, 161, 1, 0, 0, 0, 23, 163, 1, 0, 0, 0, 25, 165, 1, 0, 0, 0, 27, 167, 1, 0, 0, 0, 29, 169, 1, 0, 0, 0, 31, 171, 1, 0, 0, 0, 33, 173, 1, 0, 0, 0, 35, 175, 1, 0, 0, 0, 37, 177, 1, 0, 0, 0, 39, 179, 1, 0, 0, 0, 41, 181, 1, 0, 0, 0, 43, 183, 1, 0, 0, 0, 45, 185, 1, 0, 0, 0, 47, 187, 1, 0, 0, 0, 49, 189, 1, 0, 0, 0, 51, 191, 1, 0, 0, 0, 53, 193, 1, 0, 0, 0, 55, 195, 1, 0, 0, 0, 57, 197, 1, 0, 0, 0, 59, 199, 1, 0, 0, 0, 61, 201, 1, 0, 0, 0, 63, 203, 1, 0, 0, 0, 65, 205, 1, 0, 0, 0, 67, 207, 1, 0, 0, 0, 69, 209, 1, 0, 0, 0, 71, 211, 1, 0, 0, 0, 73, 213, 1, 0, 0, 0, 75, 215, 1, 0, 0, 0, 77, 217, 1, 0, 0, 0, 79, 219, 1, 0, 0, 0, 81, 221, 1, 0, 0, 0, 83, 223, 1, 0, 0, 0, 85, 225, 1, 0, 0, 0, 87, 227, 1, 0, 0, 0, 89, 229, 1, 0, 0, 0, 91, 231, 1, 0, 0, 0, 93, 233, 1, 0, 0, 0, 95, 235, 1, 0, 0, 0, 97, 237, 1, 0, 0, 0, 99, 239, 1, 0, 0, 0, 101, 241, 1, 0, 0, 0, 103, 243, 1, 0, 0, 0, 105, 245, 1, 0, 0, 0, 107, 247, 1, 0, 0, 0, 109, 249, 1, 0, 0, 0, 111, 251, 1, 0, 0, 0, 113, 253, 1, 0, 0, 0, 115, 255, 1, 0, 0, 0, 117, 257, 1, 0, 0, 0, 119, 259, 1, 0, 0, 0, 121, 261, 1, 0, 0, 0, 123, 263, 1, 0, 0, 0, 125, 265, 1, 0, 0, 0, 127, 267, 1, 0, 0, 0, 129, 269, 1, 0, 0, 0, 131, 271, 1, 0, 0, 0, 133, 273, 1, 0, 0, 0, 135, 275, 1, 0, 0, 0, 137, 277, 1, 0, 0, 0, 139, 279, 1, 0, 0, 0, 141, 142, 5, 0, 0, 0, 142, 2, 1, 0, 0, 0, 143, 144, 2, 1, 8, 0, 144, 4, 1, 0, 0, 0, 145, 146, 5, 9, 0, 0, 146, 6, 1, 0, 0, 0, 147, 148, 5, 10, 0, 0, 148, 8, 1, 0, 0, 0, 149, 150, 5, 11, 0, 0, 150, 10, 1, 0, 0, 0, 151, 152, 5, 12, 0, 0, 152, 12, 1, 0, 0, 0, 153, 154, 5, 13, 0, 0, 154, 14, 1, 0, 0, 0, 155, 156, 2, 14, 31, 0, 156, 16, 1, 0, 0, 0, 157, 158, 5, 32, 0, 0, 158, 18, 1, 0, 0, 0, 159, 160, 5, 33, 0, 0, 160, 20, 1, 0, 0, 0, 161, 162, 5, 34, 0, 0, 162, 22, 1, 0, 0, 0, 163, 164, 5, 35, 0, 0, 164, 24, 1, 0, 0, 0, 165, 166, 5, 36, 0, 0, 166, 26, 1, 0, 0, 0, 167, 168, 5, 37, 0, 0, 168, 28, 1, 0, 0, 0, 169, 170, 5, 38, 0, 0, 170, 30, 1, 0, 0, 0, 171, 172, 5, 39, 0, 0, 172, 32, 1, 0, 0, 0, 173, 174, 5, 40, 0, 0, 174, 34, 1, 0, 0, 0, 175, 176, 5, 41, 0, 0, 176, 36, 1, 0, 0, 0, 177, 178, 5, 42, 0, 0, 178, 38, 1, 0, 0, 0, 179, 180, 5, 43, 0, 0, 180, 40, 1, 0, 0, 0, 181, 182, 5, 44, 0, 0, 182, 42, 1, 0, 0, 0, 183, 184, 5, 45, 0, 0, 184, 44, 1, 0, 0, 0, 185, 186, 5, 46, 0, 0, 186, 46, 1, 0, 0, 0, 187, 188, 5, 47, 0, 0, 188, 48, 1, 0, 0, 0, 189, 190, 7, 0, 0, 0, 190, 50, 1, 0, 0, 0, 191, 192, 5, 58, 0, 0, 192, 52, 1, 0, 0, 0, 193, 194, 5, 59, 0, 0, 194, 54, 1, 0, 0, 0, 195, 196, 5, 60, 0, 0, 196, 56, 1, 0, 0, 0, 197, 198, 5, 61, 0, 0, 198, 58, 1, 0, 0, 0, 199, 200, 5, 62, 0, 0, 200, 60, 1, 0, 0, 0, 201, 202, 5, 63, 0, 0, 202, 62, 1, 0, 0, 0, 203, 204, 5, 64, 0, 0, 204, 64, 1, 0, 0, 0, 205, 206, 5, 91, 0, 0, 206, 66, 1, 0, 0, 0, 207, 208, 5, 92, 0, 0, 208, 68, 1, 0, 0, 0, 209, 210, 5, 93, 0, 0, 210, 70, 1, 0, 0, 0, 211, 212, 5, 94, 0, 0, 212, 72, 1, 0, 0, 0, 213, 214, 5, 95, 0, 0, 214, 74, 1, 0, 0, 0, 215, 216, 5, 96, 0, 0, 216, 76, 1, 0, 0, 0, 217, 218, 5, 123, 0, 0, 218, 78, 1, 0, 0, 0, 219, 220, 5, 124, 0, 0, 220, 80, 1, 0, 0, 0, 221, 222, 5, 125, 0, 0, 222, 82, 1, 0, 0, 0, 223, 224, 5, 126, 0, 0, 224, 84, 1, 0, 0, 0, 225, 226, 5, 127, 0, 0, 226, 86, 1, 0, 0, 0, 227, 228, 2, 128, 65535, 0, 228, 88, 1, 0, 0, 0, 229, 230, 7, 1, 0, 0, 230, 90, 1, 0, 0, 0, 231, 232, 7, 2, 0, 0, 232, 92, 1, 0, 0, 0, 233, 234, 7, 3, 0, 0, 234, 94, 1, 0, 0, 0, 235, 236, 7, 4, 0, 0, 236, 96, 1, 0, 0, 0, 237, 238, 7, 5, 0, 0, 238, 98, 1, 0, 0, 0, 239, 240, 7, 6, 0, 0, 240, 100, 1, 0, 0, 0, 241, 242, 7, 7, 0, 0, 242, 102, 1, 0, 0, 0, 243, 244, 7, 8, 0, 0, 244, 104, 1, 0, 0, 0, 245, 246, 7, 9, 0, 0, 246, 106, 1, 0, 0, 0, 247, 248, 7, 10, 0, 0, 248, 108, 1, 0, 0, 0, 249, 250, 7, 11, 0, 0, 250, 110, 1, 0, 0, 0, 251, 252, 7, 12, 0, 0, 252, 112, 1, 0, 0, 0, 253, 254, 7, 13, 0, 0, 254, 114, 1, 0, 0, 0, 255, 256, 7, 14, 0, 0, 256, 116, 1, 0, 0, 0, 257, 258, 7, 15, 0, 0, 258, 118, 1, 0, 0, 0, 259, 260, 7, 16, 0, 0, 260, 120, 1, 0, 0, 0, 261, 262, 7, 17, 0, 0, 262, 122, 1, 0, 0, 0, 263, 264, 7, 18, 0, 0, 264, 124, 1, 0, 0, 0, 265, 266, 7, 19, 0, 0, 266, 126, 1, 0, 0, 0, 267, 268, 7, 20, 0, 0, 268, 128, 1, 0, 0, 0, 269, 270, 7, 21, 0, 0, 270, 130, 1, 0, 0, 0, 271, 272, 7, 22, 0, 0, 272, 132, 1, 0, 0, 0, 273, 274, 7, 23, 0, 0, 274, 134, 1, 0, 0, 0, 275, 276, 7, 24, 0, 0, 276, 136, 1, 0, 0, 0, 277, 278, 7, 25, 0, 0, 278, 138, 1, 0, 0, 0, 279, 280, 7, 26, 0, 0, 280, 140, 1, 0, 0, 0, 1, 0, 0]
\ No newline at end of file
+[4, 0, 70, 281, 6, -1, 2, 0, 7, 0, 2, 1, 7, 1, 2, 2, 7, 2, 2, 3, 7, 3, 2, 4, 7, 4, 2, 5, 7, 5, 2, 6, 7, 6, 2, 7, 7, 7, 2, 8, 7, 8, 2, 9, 7, 9, 2, 10, 7, 10, 2, 11, 7, 11, 2, 12, 7, 12, 2, 13, 7, 13, 2, 14, 7, 14, 2, 15, 7, 15, 2, 16, 7, 16, 2, 17, 7, 17, 2, 18, 7, 18, 2, 19, 7, 19, 2, 20, 7, 20, 2, 21, 7, 21, 2, 22, 7, 22, 2, 23, 7, 23, 2, 24, 7, 24, 2, 25, 7, 25, 2, 26, 7, 26, 2, 27, 7, 27, 2, 28, 7, 28, 2, 29, 7, 29, 2, 30, 7, 30, 2, 31, 7, 31, 2, 32, 7, 32, 2, 33, 7, 33, 2, 34, 7, 34, 2, 35, 7, 35, 2, 36, 7, 36, 2, 37, 7, 37, 2, 38, 7, 38, 2, 39, 7, 39, 2, 40, 7, 40, 2, 41, 7, 41, 2, 42, 7, 42, 2, 43, 7, 43, 2, 44, 7, 44, 2, 45, 7, 45, 2, 46, 7, 46, 2, 47, 7, 47, 2, 48, 7, 48, 2, 49, 7, 49, 2, 50, 7, 50, 2, 51, 7, 51, 2, 52, 7, 52, 2, 53, 7, 53, 2, 54, 7, 54, 2, 55, 7, 55, 2, 56, 7, 56, 2, 57, 7, 57, 2, 58, 7, 58, 2, 59, 7, 59, 2, 60, 7, 60, 2, 61, 7, 61, 2, 62, 7, 62, 2, 63, 7, 63, 2, 64, 7, 64, 2, 65, 7, 65, 2, 66, 7, 66, 2, 67, 7, 67, 2, 68, 7, 68, 2, 69, 7, 69, 1, 0, 1, 0, 1, 1, 1, 1, 1, 2, 1, 2, 1, 3, 1, 3, 1, 4, 1, 4, 1, 5, 1, 5, 1, 6, 1, 6, 1, 7, 1, 7, 1, 8, 1, 8, 1, 9, 1, 9, 1, 10, 1, 10, 1, 11, 1, 11, 1, 12, 1, 12, 1, 13, 1, 13, 1, 14, 1, 14, 1, 15, 1, 15, 1, 16, 1, 16, 1, 17, 1, 17, 1, 18, 1, 18, 1, 19, 1, 19, 1, 20, 1, 20, 1, 21, 1, 21, 1, 22, 1, 22, 1, 23, 1, 23, 1, 24, 1, 24, 1, 25, 1, 25, 1, 26, 1, 26, 1, 27, 1, 27, 1, 28, 1, 28, 1, 29, 1, 29, 1, 30, 1, 30, 1, 31, 1, 31, 1, 32, 1, 32, 1, 33, 1, 33, 1, 34, 1, 34, 1, 35, 1, 35, 1, 36, 1, 36, 1, 37, 1, 37, 1, 38, 1, 38, 1, 39, 1, 39, 1, 40, 1, 40, 1, 41, 1, 41, 1, 42, 1, 42, 1, 43, 1, 43, 1, 44, 1, 44, 1, 45, 1, 45, 1, 46, 1, 46, 1, 47, 1, 47, 1, 48, 1, 48, 1, 49, 1, 49, 1, 50, 1, 50, 1, 51, 1, 51, 1, 52, 1, 52, 1, 53, 1, 53, 1, 54, 1, 54, 1, 55, 1, 55, 1, 56, 1, 56, 1, 57, 1, 57, 1, 58, 1, 58, 1, 59, 1, 59, 1, 60, 1, 60, 1, 61, 1, 61, 1, 62, 1, 62, 1, 63, 1, 63, 1, 64, 1, 64, 1, 65, 1, 65, 1, 66, 1, 66, 1, 67, 1, 67, 1, 68, 1, 68, 1, 69, 1, 69, 0, 0, 70, 1, 1, 3, 2, 5, 3, 7, 4, 9, 5, 11, 6, 13, 7, 15, 8, 17, 9, 19, 10, 21, 11, 23, 12, 25, 13, 27, 14, 29, 15, 31, 16, 33, 17, 35, 18, 37, 19, 39, 20, 41, 21, 43, 22, 45, 23, 47, 24, 49, 25, 51, 26, 53, 27, 55, 28, 57, 29, 59, 30, 61, 31, 63, 32, 65, 33, 67, 34, 69, 35, 71, 36, 73, 37, 75, 38, 77, 39, 79, 40, 81, 41, 83, 42, 85, 43, 87, 44, 89, 45, 91, 46, 93, 47, 95, 48, 97, 49, 99, 50, 101, 51, 103, 52, 105, 53, 107, 54, 109, 55, 111, 56, 113, 57, 115, 58, 117, 59, 119, 60, 121, 61, 123, 62, 125, 63, 127, 64, 129, 65, 131, 66, 133, 67, 135, 68, 137, 69, 139, 70, 1, 0, 27, 1, 0, 48, 57, 2, 0, 65, 65, 97, 97, 2, 0, 66, 66, 98, 98, 2, 0, 67, 67, 99, 99, 2, 0, 68, 68, 100, 100, 2, 0, 69, 69, 101, 101, 2, 0, 70, 70, 102, 102, 2, 0, 71, 71, 103, 103, 2, 0, 72, 72, 104, 104, 2, 0, 73, 73, 105, 105, 2, 0, 74, 74, 106, 106, 2, 0, 75, 75, 107, 107, 2, 0, 76, 76, 108, 108, 2, 0, 77, 77, 109, 109, 2, 0, 78, 78, 110, 110, 2, 0, 79, 79, 111, 111, 2, 0, 80, 80, 112, 112, 2, 0, 81, 81, 113, 113, 2, 0, 82, 82, 114, 114, 2, 0, 83, 83, 115, 115, 2, 0, 84, 84, 116, 116, 2, 0, 85, 85, 117, 117, 2, 0, 86, 86, 118, 118, 2, 0, 87, 87, 119, 119, 2, 0, 88, 88, 120, 120, 2, 0, 89, 89, 121, 121, 2, 0, 90, 90, 122, 122, 280, 0, 1, 1, 0, 0, 0, 0, 3, 1, 0, 0, 0, 0, 5, 1, 0, 0, 0, 0, 7, 1, 0, 0, 0, 0, 9, 1, 0, 0, 0, 0, 11, 1, 0, 0, 0, 0, 13, 1, 0, 0, 0, 0, 15, 1, 0, 0, 0, 0, 17, 1, 0, 0, 0, 0, 19, 1, 0, 0, 0, 0, 21, 1, 0, 0, 0, 0, 23, 1, 0, 0, 0, 0, 25, 1, 0, 0, 0, 0, 27, 1, 0, 0, 0, 0, 29, 1, 0, 0, 0, 0, 31, 1, 0, 0, 0, 0, 33, 1, 0, 0, 0, 0, 35, 1, 0, 0, 0, 0, 37, 1, 0, 0, 0, 0, 39, 1, 0, 0, 0, 0, 41, 1, 0, 0, 0, 0, 43, 1, 0, 0, 0, 0, 45, 1, 0, 0, 0, 0, 47, 1, 0, 0, 0, 0, 49, 1, 0, 0, 0, 0, 51, 1, 0, 0, 0, 0, 53, 1, 0, 0, 0, 0, 55, 1, 0, 0, 0, 0, 57, 1, 0, 0, 0, 0, 59, 1, 0, 0, 0, 0, 61, 1, 0, 0, 0, 0, 63, 1, 0, 0, 0, 0, 65, 1, 0, 0, 0, 0, 67, 1, 0, 0, 0, 0, 69, 1, 0, 0, 0, 0, 71, 1, 0, 0, 0, 0, 73, 1, 0, 0, 0, 0, 75, 1, 0, 0, 0, 0, 77, 1, 0, 0, 0, 0, 79, 1, 0, 0, 0, 0, 81, 1, 0, 0, 0, 0, 83, 1, 0, 0, 0, 0, 85, 1, 0, 0, 0, 0, 87, 1, 0, 0, 0, 0, 89, 1, 0, 0, 0, 0, 91, 1, 0, 0, 0, 0, 93, 1, 0, 0, 0, 0, 95, 1, 0, 0, 0, 0, 97, 1, 0, 0, 0, 0, 99, 1, 0, 0, 0, 0, 101, 1, 0, 0, 0, 0, 103, 1, 0, 0, 0, 0, 105, 1, 0, 0, 0, 0, 107, 1, 0, 0, 0, 0, 109, 1, 0, 0, 0, 0, 111, 1, 0, 0, 0, 0, 113, 1, 0, 0, 0, 0, 115, 1, 0, 0, 0, 0, 117, 1, 0, 0, 0, 0, 119, 1, 0, 0, 0, 0, 121, 1, 0, 0, 0, 0, 123, 1, 0, 0, 0, 0, 125, 1, 0, 0, 0, 0, 127, 1, 0, 0, 0, 0, 129, 1, 0, 0, 0, 0, 131, 1, 0, 0, 0, 0, 133, 1, 0, 0, 0, 0, 135, 1, 0, 0, 0, 0, 137, 1, 0, 0, 0, 0, 139, 1, 0, 0, 0, 1, 141, 1, 0, 0, 0, 3, 143, 1, 0, 0, 0, 5, 145, 1, 0, 0, 0, 7, 147, 1, 0, 0, 0, 9, 149, 1, 0, 0, 0, 11, 151, 1, 0, 0, 0, 13, 153, 1, 0, 0, 0, 15, 155, 1, 0, 0, 0, 17, 157, 1, 0, 0, 0, 19, 159, 1, 0, 0, 0, 21, 161, 1, 0, 0, 0, 23, 163, 1, 0, 0, 0, 25, 165, 1, 0, 0, 0, 27, 167, 1, 0, 0, 0, 29, 169, 1, 0, 0, 0, 31, 171, 1, 0, 0, 0, 33, 173, 1, 0, 0, 0, 35, 175, 1, 0, 0, 0, 37, 177, 1, 0, 0, 0, 39, 179, 1, 0, 0, 0, 41, 181, 1, 0, 0, 0, 43, 183, 1, 0, 0, 0, 45, 185, 1, 0, 0, 0, 47, 187, 1, 0, 0, 0, 49, 189, 1, 0, 0, 0, 51, 191, 1, 0, 0, 0, 53, 193, 1, 0, 0, 0, 55, 195, 1, 0, 0, 0, 57, 197, 1, 0, 0, 0, 59, 199, 1, 0, 0, 0, 61, 201, 1, 0, 0, 0, 63, 203, 1, 0, 0, 0, 65, 205, 1, 0, 0, 0, 67, 207, 1, 0, 0, 0, 69, 209, 1, 0, 0, 0, 71, 211, 1, 0, 0, 0, 73, 213, 1, 0, 0, 0, 75, 215, 1, 0, 0, 0, 77, 217, 1, 0, 0, 0, 79, 219, 1, 0, 0, 0, 81, 221, 1, 0, 0, 0, 83, 223, 1, 0, 0, 0, 85, 225, 1, 0, 0, 0, 87, 227, 1, 0, 0, 0, 89, 229, 1, 0, 0, 0, 91, 231, 1, 0, 0, 0, 93, 233, 1, 0, 0, 0, 95, 235, 1, 0, 0, 0, 97, 237, 1, 0, 0, 0, 99, 239, 1, 0, 0, 0, 101, 241, 1, 0, 0, 0, 103, 243, 1, 0, 0, 0, 105, 245, 1, 0, 0, 0, 107, 247, 1, 0, 0, 0, 109, 249, 1, 0, 0, 0, 111, 251, 1, 0, 0, 0, 113, 253, 1, 0, 0, 0, 115, 255, 1, 0, 0, 0, 117, 257, 1, 0, 0, 0, 119, 259, 1, 0, 0, 0, 121, 261, 1, 0, 0, 0, 123, 263, 1, 0, 0, 0, 125, 265, 1, 0, 0, 0, 127, 267, 1, 0, 0, 0, 129, 269, 1, 0, 0, 0, 131, 271, 1, 0, 0, 0, 133, 273, 1, 0, 0, 0, 135, 275, 1, 0, 0, 0, 137, 277, 1, 0, 0, 0, 139, 279, 1, 0, 0, 0, 141, 142, 5, 0, 0, 0, 142, 2, 1, 0, 0, 0, 143, 144, 2, 1, 8, 0, 144, 4, 1, 0, 0, 0, 145, 146, 5, 9, 0, 0, 146, 6, 1, 0, 0, 0, 147, 148, 5, 10, 0, 0, 148, 8, 1, 0, 0, 0, 149, 150, 5, 11, 0, 0, 150, 10, 1, 0, 0, 0, 151, 152, 5, 12, 0, 0, 152, 12, 1, 0, 0, 0, 153, 154, 5, 13, 0, 0, 154, 14, 1, 0, 0, 0, 155, 156, 2, 14, 31, 0, 156, 16, 1, 0, 0, 0, 157, 158, 5, 32, 0, 0, 158, 18, 1, 0, 0, 0, 159, 160, 5, 33, 0, 0, 160, 20, 1, 0, 0, 0, 161, 162, 5, 34, 0, 0, 162, 22, 1, 0, 0, 0, 163, 164, 5, 35, 0, 0, 164, 24, 1, 0, 0, 0, 165, 166, 5, 36, 0, 0, 166, 26, 1, 0, 0, 0, 167, 168, 5, 37, 0, 0, 168, 28, 1, 0, 0, 0, 169, 170, 5, 38, 0, 0, 170, 30, 1, 0, 0, 0, 171, 172, 5, 39, 0, 0, 172, 32, 1, 0, 0, 0, 173, 174, 5, 40, 0, 0, 174, 34, 1, 0, 0, 0, 175, 176, 5, 41, 0, 0, 176, 36, 1, 0, 0, 0, 177, 178, 5, 42, 0, 0, 178, 38, 1, 0, 0, 0, 179, 180, 5, 43, 0, 0, 180, 40, 1, 0, 0, 0, 181, 182, 5, 44, 0, 0, 182, 42, 1, 0, 0, 0, 183, 184, 5, 45, 0, 0, 184, 44, 1, 0, 0, 0, 185, 186, 5, 46, 0, 0, 186, 46, 1, 0, 0, 0, 187, 188, 5, 47, 0, 0, 188, 48, 1, 0, 0, 0, 189, 190, 7, 0, 0, 0, 190, 50, 1, 0, 0, 0, 191, 192, 5, 58, 0, 0, 192, 52, 1, 0, 0, 0, 193, 194, 5, 59, 0, 0, 194, 54, 1, 0, 0, 0, 195, 196, 5, 60, 0, 0, 196, 56, 1, 0, 0, 0, 197, 198, 5, 61, 0, 0, 198, 58, 1, 0, 0, 0, 199, 200, 5, 62, 0, 0, 200, 60, 1, 0, 0, 0, 201, 202, 5, 63, 0, 0, 202, 62, 1, 0, 0, 0, 203, 204, 5, 64, 0, 0, 204, 64, 1, 0, 0, 0, 205, 206, 5, 91, 0, 0, 206, 66, 1, 0, 0, 0, 207, 208, 5, 92, 0, 0, 208, 68, 1, 0, 0, 0, 209, 210, 5, 93, 0, 0, 210, 70, 1, 0, 0, 0, 211, 212, 5, 94, 0, 0, 212, 72, 1, 0, 0, 0, 213, 214, 5, 95, 0, 0, 214, 74, 1, 0, 0, 0, 215, 216, 5, 96, 0, 0, 216, 76, 1, 0, 0, 0, 217, 218, 5, 123, 0, 0, 218, 78, 1, 0, 0, 0, 219, 220, 5, 124, 0, 0, 220, 80, 1, 0, 0, 0, 221, 222, 5, 125, 0, 0, 222, 82, 1, 0, 0, 0, 223, 224, 5, 126, 0, 0, 224, 84, 1, 0, 0, 0, 225, 226, 5, 127, 0, 0, 226, 86, 1, 0, 0, 0, 227, 228, 2, 128, 1114111, 0, 228, 88, 1, 0, 0, 0, 229, 230, 7, 1, 0, 0, 230, 90, 1, 0, 0, 0, 231, 232, 7, 2, 0, 0, 232, 92, 1, 0, 0, 0, 233, 234, 7, 3, 0, 0, 234, 94, 1, 0, 0, 0, 235, 236, 7, 4, 0, 0, 236, 96, 1, 0, 0, 0, 237, 238, 7, 5, 0, 0, 238, 98, 1, 0, 0, 0, 239, 240, 7, 6, 0, 0, 240, 100, 1, 0, 0, 0, 241, 242, 7, 7, 0, 0, 242, 102, 1, 0, 0, 0, 243, 244, 7, 8, 0, 0, 244, 104, 1, 0, 0, 0, 245, 246, 7, 9, 0, 0, 246, 106, 1, 0, 0, 0, 247, 248, 7, 10, 0, 0, 248, 108, 1, 0, 0, 0, 249, 250, 7, 11, 0, 0, 250, 110, 1, 0, 0, 0, 251, 252, 7, 12, 0, 0, 252, 112, 1, 0, 0, 0, 253, 254, 7, 13, 0, 0, 254, 114, 1, 0, 0, 0, 255, 256, 7, 14, 0, 0, 256, 116, 1, 0, 0, 0, 257, 258, 7, 15, 0, 0, 258, 118, 1, 0, 0, 0, 259, 260, 7, 16, 0, 0, 260, 120, 1, 0, 0, 0, 261, 262, 7, 17, 0, 0, 262, 122, 1, 0, 0, 0, 263, 264, 7, 18, 0, 0, 264, 124, 1, 0, 0, 0, 265, 266, 7, 19, 0, 0, 266, 126, 1, 0, 0, 0, 267, 268, 7, 20, 0, 0, 268, 128, 1, 0, 0, 0, 269, 270, 7, 21, 0, 0, 270, 130, 1, 0, 0, 0, 271, 272, 7, 22, 0, 0, 272, 132, 1, 0, 0, 0, 273, 274, 7, 23, 0, 0, 274, 134, 1, 0, 0, 0, 275, 276, 7, 24, 0, 0, 276, 136, 1, 0, 0, 0, 277, 278, 7, 25, 0, 0, 278, 138, 1, 0, 0, 0, 279, 280, 7, 26, 0, 0, 280, 140, 1, 0, 0, 0, 1, 0, 0]
\ No newline at end of file
diff --git a/parser/rfc5322_lexer.go b/parser/rfc5322_lexer.go
index db7a8f1..a6fa807 100644
--- a/parser/rfc5322_lexer.go
+++ b/parser/rfc5322_lexer.go
@@ -180,7 +180,7 @@ func rfc5322lexerLexerInit() {
 		216, 76, 1, 0, 0, 0, 217, 218, 5, 123, 0, 0, 218, 78, 1, 0, 0, 0, 219,
 		220, 5, 124, 0, 0, 220, 80, 1, 0, 0, 0, 221, 222, 5, 125, 0, 0, 222, 82,
 		1, 0, 0, 0, 223, 224, 5, 126, 0, 0, 224, 84, 1, 0, 0, 0, 225, 226, 5, 127,
-		0, 0, 226, 86, 1, 0, 0, 0, 227, 228, 2, 128, 65535, 0, 228, 88, 1, 0, 0,
+		0, 0, 226, 86, 1, 0, 0, 0, 227, 228, 2, 128, 1114111, 0, 228, 88, 1, 0, 0,
 		0, 229, 230, 7, 1, 0, 0, 230, 90, 1, 0, 0, 0, 231, 232, 7, 2, 0, 0, 232,
 		92, 1, 0, 0, 0, 233, 234, 7, 3, 0, 0, 234, 94, 1, 0, 0, 0, 235, 236, 7,
 		4, 0, 0, 236, 96, 1, 0, 0, 0, 237, 238, 7, 5, 0, 0, 238, 98, 1, 0, 0, 0,
-- 
2.43.0


From 858c786ea8e7ea857a6b80acf80d7dc4beb9dc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:14 +0000
Subject: [PATCH 2/6] fix: keep trailing white space in quoted strings

The grammar's quotedString puts the white space before the closing quote
outside of quotedValue, and nothing picked it up: "Bob " lost its last
space, and a quoted string of white space only became empty.
---
 quoted_string.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quoted_string.go b/quoted_string.go
index 08410c7..646dba4 100644
--- a/quoted_string.go
+++ b/quoted_string.go
@@ -12,6 +12,11 @@ func (s *quotedString) withQuotedValue(quotedValue *quotedValue) {
 	s.value = quotedValue.value
 }
 
+// withFws adds the whitespace between the last quoted content and the closing quote.
+func (s *quotedString) withFws(fws *fws) {
+	s.value += fws.value
+}
+
 func (w *walker) EnterQuotedString(ctx *parser.QuotedStringContext) {
 	w.enter(&quotedString{})
 }
-- 
2.43.0


From e1eec852bbb7393029ca244f74817a61bb57d11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:18 +0000
Subject: [PATCH 3/6] fix: unfold white space in quoted strings

A line folded inside a quoted string left its CRLF in the decoded display
name or local part; unfolding removes the CRLF and keeps the white space
(RFC 5322 section 2.2.3).
---
 fws.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fws.go b/fws.go
index 3ece8b2..e18fc71 100644
--- a/fws.go
+++ b/fws.go
@@ -1,6 +1,8 @@
 package rfc5322
 
 import (
+	"strings"
+
 	"github.com/ProtonMail/go-rfc5322/parser"
 )
 
@@ -10,7 +12,8 @@ type fws struct {
 
 func (w *walker) EnterFws(ctx *parser.FwsContext) {
 	w.enter(&fws{
-		value: ctx.GetText(),
+		// The CRLF of a folded line is not part of the text (RFC 5322 section 2.2.3).
+		value: strings.ReplaceAll(ctx.GetText(), "\r\n", ""),
 	})
 }
 
-- 
2.43.0


From c380a17dd508036bbf390ef0b02245e1a6e2567b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:08 +0000
Subject: [PATCH 4/6] fix: do not let a quote swallow the addresses before a
 group

The grammar lets quotes surround a group. Nothing tied the two together, so
the quote opening a mailbox's name could be taken for the quote opening a
group further on: in '"John" <john@x.com>, "Team: bob@y.com', a header cut
short, John was silently lost. Refuse groups whose quotes do not match.
---
 group.go  | 23 +++++++++++++++++++++++
 parser.go |  8 ++++++++
 2 files changed, 31 insertions(+)

diff --git a/group.go b/group.go
index ebd89b2..5716bbf 100644
--- a/group.go
+++ b/group.go
@@ -1,11 +1,34 @@
 package rfc5322
 
 import (
+	"errors"
 	"net/mail"
+	"strings"
 
 	"github.com/ProtonMail/go-rfc5322/parser"
+	"github.com/antlr/antlr4/runtime/Go/antlr"
 )
 
+// groupQuotes checks the quotes that surround a group. A quote that opens a
+// group must close it, with no other quote in between. Otherwise the quote
+// opens something else (the name of a mailbox, say), and the group would
+// swallow the addresses between that and its colon.
+type groupQuotes struct {
+	parser.BaseRFC5322ParserListener
+
+	err error
+}
+
+func (q *groupQuotes) EnterGroup(ctx *parser.GroupContext) {
+	if _, ok := ctx.GetChild(0).(antlr.TerminalNode); !ok {
+		return
+	}
+
+	if len(ctx.AllDQuote()) != 2 || strings.Count(ctx.GetText(), `"`) != 2 {
+		q.err = errors.New("error parsing rfc5322 input: mismatched quotes around group")
+	}
+}
+
 type group struct {
 	addresses []*mail.Address
 }
diff --git a/parser.go b/parser.go
index 808715b..0daa2fe 100644
--- a/parser.go
+++ b/parser.go
@@ -33,6 +33,14 @@ func ParseAddressList(input string) ([]*mail.Address, error) {
 		return nil, w.err
 	}
 
+	q := &groupQuotes{}
+
+	antlr.ParseTreeWalkerDefault.Walk(q, tree)
+
+	if q.err != nil {
+		return nil, q.err
+	}
+
 	antlr.ParseTreeWalkerDefault.Walk(w, tree)
 
 	return w.res.([]*mail.Address), w.err
-- 
2.43.0


From ce6552663f48f673165e9f57b873696057edabb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:26 +0000
Subject: [PATCH 5/6] fix: unfold white space in domain literals

---
 domain_literal.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/domain_literal.go b/domain_literal.go
index 31b37bc..a63e4e8 100644
--- a/domain_literal.go
+++ b/domain_literal.go
@@ -1,6 +1,8 @@
 package rfc5322
 
 import (
+	"strings"
+
 	"github.com/ProtonMail/go-rfc5322/parser"
 )
 
@@ -10,7 +12,8 @@ type domainLiteral struct {
 
 func (w *walker) EnterDomainLiteral(ctx *parser.DomainLiteralContext) {
 	w.enter(&domainLiteral{
-		value: ctx.GetText(),
+		// The CRLF of a folded line is not part of the text (RFC 5322 section 2.2.3).
+		value: strings.ReplaceAll(ctx.GetText(), "\r\n", ""),
 	})
 }
 
-- 
2.43.0


From 4e2674b55fab8b1482b531ff8b24fd2c42bc4b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:38 +0000
Subject: [PATCH 6/6] fix: keep obsolete quoted pairs in quoted strings

---
 obs_qp.go      | 29 +++++++++++++++++++++++++++++
 quoted_pair.go |  4 ++++
 2 files changed, 33 insertions(+)
 create mode 100644 obs_qp.go

diff --git a/obs_qp.go b/obs_qp.go
new file mode 100644
index 0000000..4a6bbcc
--- /dev/null
+++ b/obs_qp.go
@@ -0,0 +1,29 @@
+package rfc5322
+
+import (
+	"strings"
+
+	"github.com/ProtonMail/go-rfc5322/parser"
+)
+
+type obsQP struct {
+	value string
+}
+
+func (w *walker) EnterObsQP(ctx *parser.ObsQPContext) {
+	w.enter(&obsQP{
+		value: strings.TrimPrefix(ctx.GetText(), `\`),
+	})
+}
+
+func (w *walker) ExitObsQP(ctx *parser.ObsQPContext) {
+	type withObsQP interface {
+		withObsQP(*obsQP)
+	}
+
+	res := w.exit().(*obsQP)
+
+	if parent, ok := w.parent().(withObsQP); ok {
+		parent.withObsQP(res)
+	}
+}
diff --git a/quoted_pair.go b/quoted_pair.go
index 3dd2b0c..96cd6e0 100644
--- a/quoted_pair.go
+++ b/quoted_pair.go
@@ -12,6 +12,10 @@ func (p *quotedPair) withQuotedChar(quotedChar *quotedChar) {
 	p.value = quotedChar.value
 }
 
+func (p *quotedPair) withObsQP(obsQP *obsQP) {
+	p.value = obsQP.value
+}
+
 func (w *walker) EnterQuotedPair(ctx *parser.QuotedPairContext) {
 	w.enter(&quotedPair{})
 }
-- 
2.43.0

