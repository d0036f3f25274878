// generated by tools/mklists.py
fn list_shuffle() {
shuf!{i8x2, i8x2, I, 1, 2, two, [3, 3]}
shuf!{i8x2, i8x2, I, 1, 2, two, [1, 3]}
shuf!{i8x2, i8x2, I, 1, 2, one, [0, 0]}
shuf!{i8x2, i8x2, I, 1, 2, one, [0, 1]}
shuf!{i8x2, i8x2, I, 1, 2, two, [3, 2]}
shuf!{i8x2, i8x4, I, 1, 2, two, [1, 3, 1, 2]}
shuf!{i8x2, i8x4, I, 1, 2, two, [2, 3, 1, 0]}
shuf!{i8x2, i8x4, I, 1, 2, one, [1, 1, 1, 0]}
shuf!{i8x2, i8x8, I, 1, 2, two, [1, 1, 2, 3, 1, 3, 1, 3]}
shuf!{i8x2, i8x8, I, 1, 2, two, [1, 0, 2, 3, 1, 0, 2, 3]}
shuf!{i8x2, i8x8, I, 1, 2, one, [1, 1, 1, 0, 0, 0, 1, 1]}
shuf!{i8x2, i8x16, I, 1, 2, two, [0, 0, 2, 2, 3, 3, 1, 2, 1, 0, 2, 3, 0, 1, 3, 1]}
shuf!{i8x2, i8x16, I, 1, 2, two, [3, 0, 1, 2, 3, 0, 1, 2, 3, 0, 1, 2, 3, 0, 1, 2]}
shuf!{i8x2, i8x16, I, 1, 2, one, [1, 1, 1, 0, 1, 1, 1, 1, 1, 0, 0, 0, 0, 1, 0, 0]}
shuf!{i8x2, i8x32, I, 1, 2, two, [2, 3, 3, 0, 0, 0, 3, 3, 0, 3, 2, 3, 0, 1, 0, 2, 2, 1, 2, 1, 1, 0, 0, 0, 1, 2, 2, 2, 1, 1, 3, 2]}
shuf!{i8x2, i8x32, I, 1, 2, two, [3, 2, 1, 0, 3, 2, 1, 0, 3, 2, 1, 0, 3, 2, 1, 0, 3, 2, 1, 0, 3, 2, 1, 0, 3, 2, 1, 0, 3, 2, 1, 0]}
shuf!{i8x2, i8x32, I, 1, 2, one, [1, 1, 0, 0, 1, 1, 0, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 1, 0, 1, 1, 0, 0, 0, 0, 1, 0, 0]}
shuf!{i8x2, i8x64, I, 1, 2, two, [2, 0, 1, 3, 3, 2, 3, 3, 1, 2, 0, 2, 1, 2, 1, 3, 0, 0, 1, 1, 1, 1, 2, 2, 0, 3, 1, 2, 0, 2, 0, 0, 0, 1, 3, 1, 2, 2, 2, 0, 2, 2, 2, 1, 2, 2, 2, 2, 2, 1, 0, 0, 2, 2, 0, 0, 2, 0, 3, 2, 1, 1, 0, 2]}
shuf!{i8x2, i8x64, I, 1, 2, two, [3, 2, 0, 1, 3, 2, 0, 1, 3, 2, 0, 1, 3, 2, 0, 1, 3, 2, 0, 1, 3, 2, 0, 1, 3, 2, 0, 1, 3, 2, 0, 1, 3, 2, 0, 1, 3, 2, 0, 1, 3, 2, 0, 1, 3, 2, 0, 1, 3, 2, 0, 1, 3, 2, 0, 1, 3, 2, 0, 1, 3, 2, 0, 1]}
shuf!{i8x2, i8x64, I, 1, 2, one, [0, 0, 1, 1, 1, 1, 0, 0, 1, 1, 0, 1, 1, 1, 0, 1, 0, 0, 1, 0, 1, 0, 0, 0, 1, 1, 1, 0, 1, 0, 0, 0, 1, 1, 0, 1, 0, 0, 0, 1, 0, 1, 1, 0, 0, 1, 0, 0, 1, 1, 0, 0, 1, 0, 0, 1, 0, 1, 1, 1, 0, 0, 1, 1]}
shuf!{i8x4, i8x2, I, 1, 4, two, [2, 3]}
shuf!{i8x4, i8x2, I, 1, 4, two, [3, 1]}
shuf!{i8x4, i8x2, I, 1, 4, one, [2, 1]}
shuf!{i8x4, i8x4, I, 1, 4, two, [0, 0, 7, 1]}
shuf!{i8x4, i8x4, I, 1, 4, two, [1, 6, 4, 7]}
shuf!{i8x4, i8x4, I, 1, 4, one, [0, 2, 3, 0]}
shuf!{i8x4, i8x4, I, 1, 4, one, [3, 1, 2, 0]}
shuf!{i8x4, i8x4, I, 1, 4, two, [7, 6, 5, 4]}
shuf!{i8x4, i8x8, I, 1, 4, two, [2, 3, 1, 1, 4, 2, 7, 5]}
shuf!{i8x4, i8x8, I, 1, 4, two, [6, 7, 2, 1, 3, 5, 0, 4]}
shuf!{i8x4, i8x8, I, 1, 4, one, [1, 2, 1, 2, 0, 2, 0, 0]}
shuf!{i8x4, i8x16, I, 1, 4, two, [2, 3, 5, 0, 3, 5, 4, 1, 7, 5, 6, 2, 1, 7, 2, 6]}
shuf!{i8x4, i8x16, I, 1, 4, two, [1, 4, 3, 6, 0, 2, 7, 5, 1, 4, 3, 6, 0, 2, 7, 5]}
shuf!{i8x4, i8x16, I, 1, 4, one, [3, 1, 2, 2, 2, 3, 0, 3, 0, 3, 3, 0, 2, 1, 1, 3]}
shuf!{i8x4, i8x32, I, 1, 4, two, [4, 5, 2, 2, 7, 6, 6, 5, 3, 0, 2, 4, 5, 4, 6, 1, 2, 1, 1, 2, 0, 5, 6, 7, 5, 6, 5, 4, 6, 2, 4, 4]}
shuf!{i8x4, i8x32, I, 1, 4, two, [5, 6, 0, 2, 7, 4, 3, 1, 5, 6, 0, 2, 7, 4, 3, 1, 5, 6, 0, 2, 7, 4, 3, 1, 5, 6, 0, 2, 7, 4, 3, 1]}
shuf!{i8x4, i8x32, I, 1, 4, one, [1, 3, 2, 2, 0, 1, 2, 2, 3, 1, 3, 2, 3, 1, 1, 0, 0, 1, 0, 2, 3, 0, 1, 3, 2, 0, 2, 0, 1, 0, 2, 2]}
shuf!{i8x4, i8x64, I, 1, 4, two, [6, 7, 2, 0, 5, 4, 3, 4, 7, 5, 3, 2, 6, 1, 4, 6, 5, 4, 1, 3, 2, 2, 5, 0, 7, 0, 6, 3, 0, 6, 3, 1, 5, 4, 2, 1, 2, 4, 3, 5, 3, 6, 2, 4, 1, 4, 7, 3, 0, 7, 5, 0, 6, 0, 5, 2, 5, 7, 0, 4, 5, 6, 5, 5]}
shuf!{i8x4, i8x64, I, 1, 4, two, [1, 0, 2, 7, 3, 5, 4, 6, 1, 0, 2, 7, 3, 5, 4, 6, 1, 0, 2, 7, 3, 5, 4, 6, 1, 0, 2, 7, 3, 5, 4, 6, 1, 0, 2, 7, 3, 5, 4, 6, 1, 0, 2, 7, 3, 5, 4, 6, 1, 0, 2, 7, 3, 5, 4, 6, 1, 0, 2, 7, 3, 5, 4, 6]}
shuf!{i8x4, i8x64, I, 1, 4, one, [0, 1, 1, 2, 0, 3, 3, 2, 1, 1, 0, 0, 1, 2, 0, 1, 3, 1, 0, 3, 3, 2, 3, 3, 0, 2, 0, 3, 0, 1, 0, 1, 1, 2, 2, 1, 0, 1, 0, 0, 0, 0, 1, 0, 2, 3, 3, 0, 1, 3, 2, 2, 3, 3, 0, 1, 3, 2, 3, 2, 1, 0, 1, 1]}
shuf!{i8x8, i8x2, I, 1, 8, two, [2, 13]}
shuf!{i8x8, i8x2, I, 1, 8, two, [1, 3]}
shuf!{i8x8, i8x2, I, 1, 8, one, [6, 0]}
shuf!{i8x8, i8x4, I, 1, 8, two, [5, 5, 7, 2]}
shuf!{i8x8, i8x4, I, 1, 8, two, [9, 15, 0, 7]}
shuf!{i8x8, i8x4, I, 1, 8, one, [2, 6, 7, 3]}
shuf!{i8x8, i8x8, I, 1, 8, two, [1, 7, 0, 15, 6, 8, 2, 0]}
shuf!{i8x8, i8x8, I, 1, 8, two, [14, 12, 15, 4, 0, 3, 9, 10]}
shuf!{i8x8, i8x8, I, 1, 8, one, [3, 3, 3, 3, 0, 3, 6, 5]}
shuf!{i8x8, i8x8, I, 1, 8, one, [3, 7, 4, 1, 0, 6, 5, 2]}
shuf!{i8x8, i8x8, I, 1, 8, two, [15, 14, 13, 12, 11, 10, 9, 8]}
shuf!{i8x8, i8x16, I, 1, 8, two, [14, 11, 5, 7, 6, 10, 6, 15, 11, 8, 13, 8, 2, 11, 8, 2]}
shuf!{i8x8, i8x16, I, 1, 8, two, [15, 14, 10, 11, 7, 6, 0, 3, 1, 13, 2, 8, 9, 4, 12, 5]}
shuf!{i8x8, i8x16, I, 1, 8, one, [2, 1, 7, 7, 2, 6, 6, 2, 6, 4, 0, 7, 1, 0, 2, 1]}
shuf!{i8x8, i8x32, I, 1, 8, two, [1, 4, 15, 3, 5, 4, 15, 8, 5, 4, 14, 9, 7, 10, 2, 2, 5, 13, 1, 11, 0, 15, 12, 11, 8, 15, 15, 11, 6, 11, 3, 7]}
shuf!{i8x8, i8x32, I, 1, 8, two, [6, 4, 11, 15, 8, 0, 10, 14, 12, 5, 2, 7, 9, 1, 3, 13, 6, 4, 11, 15, 8, 0, 10, 14, 12, 5, 2, 7, 9, 1, 3, 13]}
shuf!{i8x8, i8x32, I, 1, 8, one, [7, 7, 6, 7, 3, 6, 5, 6, 1, 3, 1, 4, 2, 7, 6, 7, 2, 7, 0, 7, 6, 1, 6, 2, 1, 7, 2, 5, 1, 3, 6, 6]}
shuf!{i8x8, i8x64, I, 1, 8, two, [2, 5, 1, 14, 4, 7, 11, 12, 14, 7, 12, 0, 7, 7, 0, 15, 11, 9, 10, 10, 11, 0, 1, 0, 7, 15, 7, 5, 3, 0, 2, 3, 8, 6, 14, 6, 4, 9, 14, 4, 7, 10, 4, 14, 2, 13, 12, 8, 11, 12, 4, 1, 7, 8, 11, 14, 14, 8, 14, 0, 5, 5, 4, 1]}
shuf!{i8x8, i8x64, I, 1, 8, two, [4, 2, 1, 7, 14, 0, 3, 10, 8, 5, 6, 9, 12, 15, 11, 13, 4, 2, 1, 7, 14, 0, 3, 10, 8, 5, 6, 9, 12, 15, 11, 13, 4, 2, 1, 7, 14, 0, 3, 10, 8, 5, 6, 9, 12, 15, 11, 13, 4, 2, 1, 7, 14, 0, 3, 10, 8, 5, 6, 9, 12, 15, 11, 13]}
shuf!{i8x8, i8x64, I, 1, 8, one, [0, 6, 1, 1, 0, 7, 5, 7, 5, 7, 0, 5, 3, 4, 6, 5, 4, 2, 6, 2, 7, 1, 7, 5, 5, 5, 7, 5, 1, 6, 1, 2, 6, 6, 2, 3, 6, 3, 4, 4, 4, 7, 1, 2, 1, 3, 2, 6, 1, 4, 1, 2, 7, 7, 3, 2, 5, 7, 2, 5, 6, 3, 3, 3]}
shuf!{i8x16, i8x2, I, 1, 16, two, [2, 24]}
shuf!{i8x16, i8x2, I, 1, 16, two, [18, 3]}
shuf!{i8x16, i8x2, I, 1, 16, one, [4, 15]}
shuf!{i8x16, i8x4, I, 1, 16, two, [16, 16, 26, 15]}
shuf!{i8x16, i8x4, I, 1, 16, two, [21, 19, 15, 22]}
shuf!{i8x16, i8x4, I, 1, 16, one, [12, 10, 4, 14]}
shuf!{i8x16, i8x8, I, 1, 16, two, [26, 12, 1, 29, 19, 21, 28, 7]}
shuf!{i8x16, i8x8, I, 1, 16, two, [11, 31, 12, 28, 25, 18, 24, 13]}
shuf!{i8x16, i8x8, I, 1, 16, one, [2, 14, 2, 14, 11, 4, 1, 5]}
shuf!{i8x16, i8x16, I, 1, 16, two, [21, 24, 3, 21, 6, 17, 11, 7, 1, 13, 27, 14, 5, 10, 25, 16]}
shuf!{i8x16, i8x16, I, 1, 16, two, [2, 25, 22, 29, 0, 11, 7, 12, 4, 10, 19, 8, 20, 9, 27, 30]}
shuf!{i8x16, i8x16, I, 1, 16, one, [10, 13, 12, 14, 15, 8, 3, 9, 3, 10, 5, 8, 8, 14, 3, 2]}
shuf!{i8x16, i8x16, I, 1, 16, one, [14, 6, 7, 2, 4, 0, 1, 5, 10, 12, 3, 11, 13, 9, 8, 15]}
shuf!{i8x16, i8x16, I, 1, 16, two, [31, 30, 29, 28, 27, 26, 25, 24, 23, 22, 21, 20, 19, 18, 17, 16]}
shuf!{i8x16, i8x32, I, 1, 16, two, [13, 9, 5, 23, 15, 30, 9, 11, 13, 26, 20, 11, 1, 19, 0, 20, 3, 6, 11, 23, 28, 5, 5, 2, 13, 0, 29, 6, 20, 7, 24, 14]}
shuf!{i8x16, i8x32, I, 1, 16, two, [24, 0, 6, 31, 27, 15, 5, 17, 10, 23, 8, 2, 19, 14, 4, 25, 26, 7, 22, 12, 9, 29, 11, 16, 13, 20, 21, 18, 30, 3, 28, 1]}
shuf!{i8x16, i8x32, I, 1, 16, one, [10, 14, 4, 2, 2, 12, 4, 12, 14, 2, 15, 6, 14, 7, 8, 8, 4, 3, 15, 1, 12, 15, 5, 3, 4, 6, 9, 3, 12, 12, 11, 7]}
shuf!{i8x16, i8x64, I, 1, 16, two, [9, 10, 26, 10, 13, 31, 9, 1, 21, 24, 2, 15, 26, 9, 17, 4, 24, 20, 28, 23, 8, 28, 6, 22, 1, 16, 6, 28, 9, 26, 28, 29, 1, 23, 0, 23, 20, 19, 0, 18, 12, 12, 7, 25, 5, 31, 2, 24, 3, 8, 2, 6, 19, 8, 22, 4, 20, 19, 11, 18, 12, 29, 20, 17]}
shuf!{i8x16, i8x64, I, 1, 16, two, [7, 22, 29, 1, 18, 10, 30, 4, 15, 8, 0, 25, 28, 17, 24, 12, 23, 19, 16, 11, 21, 31, 2, 20, 14, 3, 6, 9, 13, 26, 5, 27, 7, 22, 29, 1, 18, 10, 30, 4, 15, 8, 0, 25, 28, 17, 24, 12, 23, 19, 16, 11, 21, 31, 2, 20, 14, 3, 6, 9, 13, 26, 5, 27]}
shuf!{i8x16, i8x64, I, 1, 16, one, [13, 9, 12, 15, 9, 11, 6, 10, 3, 8, 0, 1, 10, 10, 4, 15, 3, 2, 12, 3, 15, 4, 2, 14, 3, 13, 8, 5, 2, 1, 2, 1, 4, 3, 1, 11, 10, 12, 13, 15, 7, 7, 8, 3, 0, 7, 11, 8, 0, 14, 10, 14, 0, 1, 14, 8, 12, 9, 4, 1, 7, 7, 2, 13]}
shuf!{i8x32, i8x2, I, 1, 32, two, [2, 49]}
shuf!{i8x32, i8x2, I, 1, 32, two, [18, 24]}
shuf!{i8x32, i8x2, I, 1, 32, one, [18, 19]}
shuf!{i8x32, i8x4, I, 1, 32, two, [52, 40, 8, 16]}
shuf!{i8x32, i8x4, I, 1, 32, two, [30, 34, 17, 37]}
shuf!{i8x32, i8x4, I, 1, 32, one, [15, 9, 13, 18]}
shuf!{i8x32, i8x8, I, 1, 32, two, [17, 5, 54, 45, 30, 36, 47, 43]}
shuf!{i8x32, i8x8, I, 1, 32, two, [19, 60, 29, 10, 46, 13, 38, 45]}
shuf!{i8x32, i8x8, I, 1, 32, one, [21, 10, 11, 17, 5, 19, 3, 8]}
shuf!{i8x32, i8x16, I, 1, 32, two, [35, 1, 29, 33, 61, 38, 0, 49, 22, 59, 45, 23, 52, 29, 24, 48]}
shuf!{i8x32, i8x16, I, 1, 32, two, [13, 62, 49, 21, 30, 61, 27, 57, 7, 37, 59, 34, 1, 55, 48, 36]}
shuf!{i8x32, i8x16, I, 1, 32, one, [27, 18, 5, 31, 1, 19, 9, 13, 27, 1, 30, 1, 10, 7, 17, 6]}
shuf!{i8x32, i8x32, I, 1, 32, two, [8, 53, 5, 29, 38, 32, 50, 29, 25, 41, 59, 29, 62, 59, 53, 19, 63, 22, 5, 16, 22, 21, 18, 17, 31, 48, 42, 28, 27, 11, 31, 37]}
shuf!{i8x32, i8x32, I, 1, 32, two, [22, 24, 62, 16, 63, 61, 29, 2, 7, 54, 41, 45, 52, 31, 42, 5, 0, 3, 44, 60, 12, 33, 25, 37, 20, 40, 57, 49, 15, 47, 18, 48]}
shuf!{i8x32, i8x32, I, 1, 32, one, [1, 23, 18, 13, 16, 3, 28, 28, 5, 26, 30, 15, 1, 13, 24, 14, 4, 27, 9, 24, 15, 24, 18, 30, 0, 22, 12, 13, 22, 17, 13, 28]}
shuf!{i8x32, i8x32, I, 1, 32, one, [4, 28, 22, 23, 20, 5, 30, 1, 19, 2, 8, 13, 11, 16, 26, 21, 14, 10, 29, 18, 9, 24, 12, 0, 3, 17, 7, 27, 25, 15, 6, 31]}
shuf!{i8x32, i8x32, I, 1, 32, two, [63, 62, 61, 60, 59, 58, 57, 56, 55, 54, 53, 52, 51, 50, 49, 48, 47, 46, 45, 44, 43, 42, 41, 40, 39, 38, 37, 36, 35, 34, 33, 32]}
shuf!{i8x32, i8x64, I, 1, 32, two, [1, 46, 22, 60, 32, 16, 10, 29, 25, 5, 54, 24, 5, 2, 45, 53, 15, 41, 49, 19, 40, 46, 38, 60, 16, 49, 5, 63, 12, 35, 7, 60, 9, 4, 10, 51, 61, 10, 25, 6, 56, 39, 23, 45, 41, 49, 40, 16, 17, 18, 53, 20, 8, 39, 1, 21, 55, 55, 3, 50, 13, 36, 62, 28]}
shuf!{i8x32, i8x64, I, 1, 32, two, [35, 8, 20, 1, 56, 29, 39, 62, 42, 41, 21, 31, 58, 43, 28, 36, 44, 47, 55, 27, 19, 40, 49, 60, 7, 13, 51, 30, 10, 22, 3, 2, 46, 14, 52, 37, 23, 59, 24, 0, 48, 53, 5, 16, 33, 11, 57, 45, 38, 12, 32, 25, 18, 54, 17, 4, 26, 50, 34, 9, 61, 6, 63, 15]}
shuf!{i8x32, i8x64, I, 1, 32, one, [22, 22, 16, 10, 28, 26, 24, 10, 24, 3, 28, 4, 29, 24, 2, 2, 17, 12, 27, 18, 1, 30, 15, 22, 24, 19, 5, 25, 23, 18, 14, 22, 0, 31, 20, 0, 22, 11, 22, 19, 2, 16, 0, 29, 16, 31, 21, 25, 17, 6, 31, 24, 13, 19, 20, 6, 2, 11, 7, 24, 23, 28, 15, 1]}
shuf!{i8x64, i8x2, I, 1, 64, two, [108, 40]}
shuf!{i8x64, i8x2, I, 1, 64, two, [83, 84]}
shuf!{i8x64, i8x2, I, 1, 64, one, [42, 54]}
shuf!{i8x64, i8x4, I, 1, 64, two, [74, 14, 86, 22]}
shuf!{i8x64, i8x4, I, 1, 64, two, [41, 53, 125, 9]}
shuf!{i8x64, i8x4, I, 1, 64, one, [52, 18, 14, 44]}
shuf!{i8x64, i8x8, I, 1, 64, two, [127, 23, 25, 18, 62, 55, 112, 126]}
shuf!{i8x64, i8x8, I, 1, 64, two, [32, 22, 30, 39, 119, 25, 76, 107]}
shuf!{i8x64, i8x8, I, 1, 64, one, [9, 52, 47, 29, 44, 36, 59, 0]}
shuf!{i8x64, i8x16, I, 1, 64, two, [86, 79, 69, 101, 77, 117, 2, 69, 117, 49, 62, 91, 120, 46, 87, 46]}
shuf!{i8x64, i8x16, I, 1, 64, two, [80, 49, 102, 60, 123, 46, 53, 32, 107, 93, 7, 12, 43, 87, 112, 25]}
shuf!{i8x64, i8x16, I, 1, 64, one, [21, 49, 8, 15, 36, 12, 37, 43, 38, 11, 47, 48, 20, 7, 59, 25]}
shuf!{i8x64, i8x32, I, 1, 64, two, [19, 59, 65, 74, 110, 3, 118, 112, 2, 102, 64, 11, 70, 69, 45, 122, 44, 69, 104, 41, 93, 112, 87, 82, 48, 65, 78, 121, 81, 10, 114, 39]}
shuf!{i8x64, i8x32, I, 1, 64, two, [34, 66, 79, 110, 13, 112, 123, 126, 50, 114, 89, 33, 22, 14, 32, 92, 77, 7, 102, 109, 71, 69, 72, 16, 55, 118, 26, 24, 58, 73, 82, 27]}
shuf!{i8x64, i8x32, I, 1, 64, one, [53, 47, 35, 43, 11, 5, 41, 11, 10, 63, 37, 37, 5, 36, 45, 12, 13, 62, 15, 33, 51, 5, 48, 37, 30, 39, 57, 39, 2, 43, 39, 33]}
shuf!{i8x64, i8x64, I, 1, 64, two, [57, 70, 88, 71, 109, 114, 109, 2, 112, 88, 40, 97, 121, 49, 13, 117, 99, 41, 13, 22, 26, 83, 125, 67, 1, 101, 65, 121, 15, 100, 105, 6, 46, 100, 66, 122, 48, 29, 64, 30, 27, 98, 83, 99, 15, 106, 100, 7, 86, 57, 108, 50, 50, 85, 42, 16, 106, 81, 70, 68, 43, 78, 32, 88]}
shuf!{i8x64, i8x64, I, 1, 64, two, [59, 93, 49, 33, 22, 121, 12, 89, 53, 105, 32, 0, 11, 113, 101, 74, 20, 98, 42, 36, 34, 9, 82, 57, 2, 67, 75, 80, 35, 18, 91, 79, 47, 56, 76, 124, 26, 55, 23, 8, 114, 44, 65, 66, 70, 5, 37, 119, 116, 68, 88, 102, 4, 77, 30, 117, 31, 123, 100, 73, 64, 54, 28, 87]}
shuf!{i8x64, i8x64, I, 1, 64, one, [5, 23, 60, 22, 50, 2, 40, 29, 47, 29, 0, 19, 50, 48, 11, 8, 9, 25, 62, 16, 23, 38, 40, 57, 38, 57, 54, 48, 23, 6, 12, 48, 49, 3, 18, 4, 5, 36, 26, 11, 8, 22, 20, 12, 5, 51, 37, 45, 31, 51, 43, 56, 13, 29, 54, 27, 58, 49, 60, 61, 9, 7, 19, 43]}
shuf!{i8x64, i8x64, I, 1, 64, one, [13, 1, 50, 26, 41, 29, 11, 23, 32, 7, 3, 36, 30, 25, 31, 55, 21, 4, 9, 2, 48, 47, 44, 17, 63, 45, 20, 15, 12, 34, 56, 62, 5, 6, 54, 52, 22, 28, 57, 37, 0, 60, 46, 49, 42, 24, 38, 14, 8, 10, 59, 18, 58, 19, 61, 51, 40, 27, 39, 53, 43, 35, 33, 16]}
shuf!{i8x64, i8x64, I, 1, 64, two, [127, 126, 125, 124, 123, 122, 121, 120, 119, 118, 117, 116, 115, 114, 113, 112, 111, 110, 109, 108, 107, 106, 105, 104, 103, 102, 101, 100, 99, 98, 97, 96, 95, 94, 93, 92, 91, 90, 89, 88, 87, 86, 85, 84, 83, 82, 81, 80, 79, 78, 77, 76, 75, 74, 73, 72, 71, 70, 69, 68, 67, 66, 65, 64]}
shuf!{i16x2, i16x2, I, 2, 2, two, [0, 3]}
shuf!{i16x2, i16x2, I, 2, 2, two, [3, 1]}
shuf!{i16x2, i16x2, I, 2, 2, one, [1, 0]}
shuf!{i16x2, i16x2, I, 2, 2, one, [1, 0]}
shuf!{i16x2, i16x2, I, 2, 2, two, [3, 2]}
shuf!{i16x2, i16x4, I, 2, 2, two, [2, 1, 1, 0]}
shuf!{i16x2, i16x4, I, 2, 2, two, [2, 3, 0, 1]}
shuf!{i16x2, i16x4, I, 2, 2, one, [1, 1, 1, 1]}
shuf!{i16x2, i16x8, I, 2, 2, two, [0, 3, 1, 1, 2, 3, 2, 1]}
shuf!{i16x2, i16x8, I, 2, 2, two, [0, 2, 3, 1, 0, 2, 3, 1]}
shuf!{i16x2, i16x8, I, 2, 2, one, [0, 1, 1, 1, 1, 1, 1, 0]}
shuf!{i16x2, i16x16, I, 2, 2, two, [3, 1, 1, 1, 0, 1, 2, 1, 1, 0, 2, 0, 0, 0, 3, 1]}
shuf!{i16x2, i16x16, I, 2, 2, two, [2, 1, 0, 3, 2, 1, 0, 3, 2, 1, 0, 3, 2, 1, 0, 3]}
shuf!{i16x2, i16x16, I, 2, 2, one, [0, 0, 1, 0, 1, 1, 1, 1, 1, 0, 0, 1, 1, 1, 1, 0]}
shuf!{i16x2, i16x32, I, 2, 2, two, [0, 2, 1, 0, 1, 3, 2, 2, 1, 1, 1, 3, 0, 0, 1, 2, 1, 1, 0, 1, 2, 3, 2, 0, 2, 1, 0, 3, 0, 3, 1, 0]}
shuf!{i16x2, i16x32, I, 2, 2, two, [0, 3, 2, 1, 0, 3, 2, 1, 0, 3, 2, 1, 0, 3, 2, 1, 0, 3, 2, 1, 0, 3, 2, 1, 0, 3, 2, 1, 0, 3, 2, 1]}
shuf!{i16x2, i16x32, I, 2, 2, one, [0, 0, 1, 1, 0, 0, 1, 0, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 1, 0, 1, 1, 1, 0, 1, 0, 1, 0, 0, 0, 1, 0]}
shuf!{i16x4, i16x2, I, 2, 4, two, [4, 3]}
shuf!{i16x4, i16x2, I, 2, 4, two, [1, 3]}
shuf!{i16x4, i16x2, I, 2, 4, one, [0, 3]}
shuf!{i16x4, i16x4, I, 2, 4, two, [6, 6, 4, 1]}
shuf!{i16x4, i16x4, I, 2, 4, two, [4, 1, 6, 2]}
shuf!{i16x4, i16x4, I, 2, 4, one, [0, 2, 3, 2]}
shuf!{i16x4, i16x4, I, 2, 4, one, [3, 1, 2, 0]}
shuf!{i16x4, i16x4, I, 2, 4, two, [7, 6, 5, 4]}
shuf!{i16x4, i16x8, I, 2, 4, two, [7, 6, 6, 7, 3, 6, 1, 3]}
shuf!{i16x4, i16x8, I, 2, 4, two, [4, 1, 6, 3, 7, 2, 0, 5]}
shuf!{i16x4, i16x8, I, 2, 4, one, [1, 1, 1, 2, 0, 1, 0, 1]}
shuf!{i16x4, i16x16, I, 2, 4, two, [5, 0, 2, 6, 3, 7, 4, 4, 1, 6, 3, 7, 1, 7, 3, 7]}
shuf!{i16x4, i16x16, I, 2, 4, two, [1, 5, 6, 3, 0, 7, 2, 4, 1, 5, 6, 3, 0, 7, 2, 4]}
shuf!{i16x4, i16x16, I, 2, 4, one, [2, 2, 2, 0, 1, 2, 0, 2, 3, 2, 0, 3, 1, 2, 1, 2]}
shuf!{i16x4, i16x32, I, 2, 4, two, [5, 2, 6, 4, 4, 7, 6, 1, 6, 6, 6, 6, 1, 7, 5, 7, 1, 5, 1, 3, 1, 3, 2, 4, 4, 1, 3, 2, 0, 4, 2, 7]}
shuf!{i16x4, i16x32, I, 2, 4, two, [1, 2, 6, 3, 4, 0, 7, 5, 1, 2, 6, 3, 4, 0, 7, 5, 1, 2, 6, 3, 4, 0, 7, 5, 1, 2, 6, 3, 4, 0, 7, 5]}
shuf!{i16x4, i16x32, I, 2, 4, one, [1, 2, 2, 3, 0, 1, 3, 0, 0, 1, 3, 2, 0, 2, 2, 0, 3, 3, 3, 1, 3, 0, 2, 3, 0, 3, 3, 1, 0, 1, 3, 3]}
shuf!{i16x8, i16x2, I, 2, 8, two, [8, 11]}
shuf!{i16x8, i16x2, I, 2, 8, two, [5, 15]}
shuf!{i16x8, i16x2, I, 2, 8, one, [4, 1]}
shuf!{i16x8, i16x4, I, 2, 8, two, [5, 14, 8, 0]}
shuf!{i16x8, i16x4, I, 2, 8, two, [4, 1, 10, 0]}
shuf!{i16x8, i16x4, I, 2, 8, one, [2, 4, 1, 2]}
shuf!{i16x8, i16x8, I, 2, 8, two, [14, 7, 2, 11, 8, 2, 12, 15]}
shuf!{i16x8, i16x8, I, 2, 8, two, [15, 1, 6, 2, 0, 10, 14, 11]}
shuf!{i16x8, i16x8, I, 2, 8, one, [5, 6, 1, 3, 7, 0, 6, 2]}
shuf!{i16x8, i16x8, I, 2, 8, one, [6, 5, 2, 0, 1, 3, 4, 7]}
shuf!{i16x8, i16x8, I, 2, 8, two, [15, 14, 13, 12, 11, 10, 9, 8]}
shuf!{i16x8, i16x16, I, 2, 8, two, [8, 14, 0, 3, 12, 7, 5, 14, 11, 12, 11, 8, 11, 1, 10, 9]}
shuf!{i16x8, i16x16, I, 2, 8, two, [1, 12, 14, 6, 13, 9, 3, 0, 10, 8, 11, 4, 15, 2, 5, 7]}
shuf!{i16x8, i16x16, I, 2, 8, one, [5, 4, 1, 5, 6, 3, 1, 3, 0, 0, 1, 5, 7, 1, 0, 0]}
shuf!{i16x8, i16x32, I, 2, 8, two, [4, 4, 7, 3, 12, 11, 13, 13, 0, 8, 13, 8, 4, 12, 12, 1, 1, 9, 13, 8, 3, 14, 14, 1, 8, 3, 3, 6, 3, 8, 5, 5]}
shuf!{i16x8, i16x32, I, 2, 8, two, [7, 15, 4, 8, 3, 0, 10, 12, 1, 9, 5, 6, 13, 14, 2, 11, 7, 15, 4, 8, 3, 0, 10, 12, 1, 9, 5, 6, 13, 14, 2, 11]}
shuf!{i16x8, i16x32, I, 2, 8, one, [6, 1, 4, 2, 1, 3, 6, 1, 3, 4, 3, 0, 4, 5, 7, 3, 3, 2, 2, 1, 1, 4, 3, 7, 1, 4, 3, 2, 5, 3, 5, 4]}
shuf!{i16x16, i16x2, I, 2, 16, two, [29, 20]}
shuf!{i16x16, i16x2, I, 2, 16, two, [22, 14]}
shuf!{i16x16, i16x2, I, 2, 16, one, [15, 2]}
shuf!{i16x16, i16x4, I, 2, 16, two, [0, 5, 29, 23]}
shuf!{i16x16, i16x4, I, 2, 16, two, [16, 30, 15, 17]}
shuf!{i16x16, i16x4, I, 2, 16, one, [15, 2, 8, 10]}
shuf!{i16x16, i16x8, I, 2, 16, two, [30, 29, 29, 22, 16, 13, 13, 13]}
shuf!{i16x16, i16x8, I, 2, 16, two, [28, 12, 21, 6, 16, 25, 29, 5]}
shuf!{i16x16, i16x8, I, 2, 16, one, [4, 8, 8, 10, 9, 7, 12, 12]}
shuf!{i16x16, i16x16, I, 2, 16, two, [14, 31, 9, 21, 12, 27, 1, 16, 9, 24, 11, 31, 19, 23, 20, 19]}
shuf!{i16x16, i16x16, I, 2, 16, two, [27, 25, 7, 11, 3, 1, 2, 15, 10, 6, 20, 9, 14, 12, 24, 31]}
shuf!{i16x16, i16x16, I, 2, 16, one, [2, 15, 7, 8, 6, 4, 5, 12, 14, 3, 0, 6, 14, 3, 6, 14]}
shuf!{i16x16, i16x16, I, 2, 16, one, [0, 4, 10, 11, 3, 6, 2, 15, 7, 13, 5, 8, 14, 9, 12, 1]}
shuf!{i16x16, i16x16, I, 2, 16, two, [31, 30, 29, 28, 27, 26, 25, 24, 23, 22, 21, 20, 19, 18, 17, 16]}
shuf!{i16x16, i16x32, I, 2, 16, two, [11, 10, 4, 1, 2, 20, 25, 13, 18, 23, 16, 26, 20, 0, 17, 27, 3, 3, 0, 10, 20, 30, 22, 8, 23, 18, 12, 10, 2, 8, 13, 15]}
shuf!{i16x16, i16x32, I, 2, 16, two, [29, 8, 31, 21, 2, 23, 22, 24, 15, 5, 7, 17, 30, 1, 0, 18, 3, 20, 26, 14, 13, 16, 4, 19, 25, 27, 10, 28, 6, 12, 11, 9]}
shuf!{i16x16, i16x32, I, 2, 16, one, [15, 3, 1, 6, 7, 12, 8, 14, 1, 10, 8, 12, 8, 11, 10, 11, 11, 7, 5, 0, 14, 3, 5, 11, 6, 12, 14, 14, 8, 7, 15, 0]}
shuf!{i16x32, i16x2, I, 2, 32, two, [0, 49]}
shuf!{i16x32, i16x2, I, 2, 32, two, [27, 41]}
shuf!{i16x32, i16x2, I, 2, 32, one, [7, 10]}
shuf!{i16x32, i16x4, I, 2, 32, two, [23, 39, 49, 50]}
shuf!{i16x32, i16x4, I, 2, 32, two, [25, 24, 34, 23]}
shuf!{i16x32, i16x4, I, 2, 32, one, [6, 12, 28, 14]}
shuf!{i16x32, i16x8, I, 2, 32, two, [39, 25, 50, 48, 52, 21, 61, 3]}
shuf!{i16x32, i16x8, I, 2, 32, two, [15, 19, 57, 43, 47, 34, 61, 42]}
shuf!{i16x32, i16x8, I, 2, 32, one, [16, 9, 11, 1, 30, 18, 17, 11]}
shuf!{i16x32, i16x16, I, 2, 32, two, [19, 42, 16, 27, 52, 31, 27, 24, 2, 55, 16, 4, 53, 51, 15, 51]}
shuf!{i16x32, i16x16, I, 2, 32, two, [5, 30, 51, 27, 61, 53, 24, 11, 48, 52, 20, 37, 55, 13, 8, 49]}
shuf!{i16x32, i16x16, I, 2, 32, one, [9, 21, 20, 31, 1, 0, 24, 28, 21, 24, 0, 14, 17, 26, 22, 8]}
shuf!{i16x32, i16x32, I, 2, 32, two, [23, 49, 6, 52, 4, 9, 0, 53, 6, 35, 32, 37, 36, 7, 62, 53, 6, 30, 31, 21, 11, 29, 46, 12, 39, 28, 24, 45, 10, 34, 7, 11]}
shuf!{i16x32, i16x32, I, 2, 32, two, [28, 21, 13, 2, 5, 11, 16, 27, 37, 29, 19, 26, 53, 25, 6, 47, 52, 34, 40, 43, 38, 1, 30, 14, 12, 33, 62, 10, 36, 4, 9, 0]}
shuf!{i16x32, i16x32, I, 2, 32, one, [20, 0, 30, 27, 7, 11, 25, 21, 7, 10, 20, 0, 2, 13, 29, 8, 26, 1, 25, 16, 20, 18, 23, 1, 30, 28, 16, 28, 30, 3, 4, 6]}
shuf!{i16x32, i16x32, I, 2, 32, one, [11, 30, 28, 29, 10, 18, 7, 3, 14, 5, 13, 1, 15, 24, 20, 16, 25, 26, 8, 31, 17, 12, 23, 22, 4, 0, 9, 19, 21, 2, 27, 6]}
shuf!{i16x32, i16x32, I, 2, 32, two, [63, 62, 61, 60, 59, 58, 57, 56, 55, 54, 53, 52, 51, 50, 49, 48, 47, 46, 45, 44, 43, 42, 41, 40, 39, 38, 37, 36, 35, 34, 33, 32]}
shuf!{i32x2, i32x2, I, 4, 2, two, [1, 0]}
shuf!{i32x2, i32x2, I, 4, 2, two, [2, 0]}
shuf!{i32x2, i32x2, I, 4, 2, one, [1, 0]}
shuf!{i32x2, i32x2, I, 4, 2, one, [1, 0]}
shuf!{i32x2, i32x2, I, 4, 2, two, [3, 2]}
shuf!{i32x2, i32x4, I, 4, 2, two, [3, 1, 3, 1]}
shuf!{i32x2, i32x4, I, 4, 2, two, [2, 0, 3, 1]}
shuf!{i32x2, i32x4, I, 4, 2, one, [0, 1, 0, 0]}
shuf!{i32x2, i32x8, I, 4, 2, two, [1, 3, 3, 3, 0, 0, 1, 0]}
shuf!{i32x2, i32x8, I, 4, 2, two, [0, 3, 2, 1, 0, 3, 2, 1]}
shuf!{i32x2, i32x8, I, 4, 2, one, [0, 0, 1, 0, 0, 1, 0, 1]}
shuf!{i32x2, i32x16, I, 4, 2, two, [0, 0, 0, 0, 2, 2, 0, 1, 3, 0, 0, 3, 2, 1, 2, 1]}
shuf!{i32x2, i32x16, I, 4, 2, two, [0, 3, 2, 1, 0, 3, 2, 1, 0, 3, 2, 1, 0, 3, 2, 1]}
shuf!{i32x2, i32x16, I, 4, 2, one, [1, 1, 0, 1, 0, 1, 0, 0, 1, 0, 1, 0, 0, 0, 0, 0]}
shuf!{i32x4, i32x2, I, 4, 4, two, [1, 3]}
shuf!{i32x4, i32x2, I, 4, 4, two, [4, 6]}
shuf!{i32x4, i32x2, I, 4, 4, one, [2, 3]}
shuf!{i32x4, i32x4, I, 4, 4, two, [1, 3, 7, 3]}
shuf!{i32x4, i32x4, I, 4, 4, two, [7, 5, 4, 0]}
shuf!{i32x4, i32x4, I, 4, 4, one, [2, 3, 0, 0]}
shuf!{i32x4, i32x4, I, 4, 4, one, [0, 2, 1, 3]}
shuf!{i32x4, i32x4, I, 4, 4, two, [7, 6, 5, 4]}
shuf!{i32x4, i32x8, I, 4, 4, two, [1, 4, 7, 5, 4, 7, 3, 7]}
shuf!{i32x4, i32x8, I, 4, 4, two, [6, 4, 7, 1, 5, 0, 3, 2]}
shuf!{i32x4, i32x8, I, 4, 4, one, [3, 0, 3, 1, 0, 3, 0, 1]}
shuf!{i32x4, i32x16, I, 4, 4, two, [7, 5, 4, 4, 0, 6, 6, 7, 4, 0, 5, 4, 4, 2, 5, 5]}
shuf!{i32x4, i32x16, I, 4, 4, two, [6, 4, 0, 5, 3, 2, 1, 7, 6, 4, 0, 5, 3, 2, 1, 7]}
shuf!{i32x4, i32x16, I, 4, 4, one, [2, 1, 3, 1, 1, 1, 0, 0, 2, 0, 1, 1, 3, 1, 3, 0]}
shuf!{i32x8, i32x2, I, 4, 8, two, [2, 8]}
shuf!{i32x8, i32x2, I, 4, 8, two, [1, 12]}
shuf!{i32x8, i32x2, I, 4, 8, one, [3, 6]}
shuf!{i32x8, i32x4, I, 4, 8, two, [4, 15, 11, 13]}
shuf!{i32x8, i32x4, I, 4, 8, two, [8, 1, 15, 3]}
shuf!{i32x8, i32x4, I, 4, 8, one, [2, 5, 6, 0]}
shuf!{i32x8, i32x8, I, 4, 8, two, [3, 14, 2, 3, 10, 14, 13, 3]}
shuf!{i32x8, i32x8, I, 4, 8, two, [2, 3, 5, 10, 0, 11, 15, 14]}
shuf!{i32x8, i32x8, I, 4, 8, one, [1, 5, 2, 4, 7, 4, 5, 5]}
shuf!{i32x8, i32x8, I, 4, 8, one, [5, 6, 4, 1, 0, 7, 3, 2]}
shuf!{i32x8, i32x8, I, 4, 8, two, [15, 14, 13, 12, 11, 10, 9, 8]}
shuf!{i32x8, i32x16, I, 4, 8, two, [3, 9, 9, 7, 15, 15, 11, 7, 2, 0, 11, 9, 2, 9, 4, 5]}
shuf!{i32x8, i32x16, I, 4, 8, two, [3, 13, 10, 15, 11, 9, 7, 2, 6, 0, 4, 12, 8, 1, 5, 14]}
shuf!{i32x8, i32x16, I, 4, 8, one, [4, 4, 2, 1, 2, 0, 7, 5, 0, 2, 3, 0, 7, 4, 7, 5]}
shuf!{i32x16, i32x2, I, 4, 16, two, [28, 0]}
shuf!{i32x16, i32x2, I, 4, 16, two, [22, 29]}
shuf!{i32x16, i32x2, I, 4, 16, one, [7, 12]}
shuf!{i32x16, i32x4, I, 4, 16, two, [11, 29, 18, 19]}
shuf!{i32x16, i32x4, I, 4, 16, two, [3, 28, 17, 27]}
shuf!{i32x16, i32x4, I, 4, 16, one, [2, 3, 12, 5]}
shuf!{i32x16, i32x8, I, 4, 16, two, [27, 22, 13, 25, 14, 17, 9, 3]}
shuf!{i32x16, i32x8, I, 4, 16, two, [21, 2, 1, 23, 22, 16, 26, 6]}
shuf!{i32x16, i32x8, I, 4, 16, one, [6, 7, 2, 0, 14, 6, 1, 8]}
shuf!{i32x16, i32x16, I, 4, 16, two, [28, 22, 10, 24, 26, 28, 13, 1, 11, 27, 17, 4, 25, 8, 23, 13]}
shuf!{i32x16, i32x16, I, 4, 16, two, [21, 7, 9, 29, 6, 14, 8, 0, 22, 24, 3, 18, 15, 12, 25, 28]}
shuf!{i32x16, i32x16, I, 4, 16, one, [4, 11, 12, 14, 13, 5, 5, 15, 13, 15, 8, 13, 9, 9, 8, 10]}
shuf!{i32x16, i32x16, I, 4, 16, one, [2, 5, 12, 1, 10, 15, 14, 3, 0, 9, 11, 8, 6, 13, 4, 7]}
shuf!{i32x16, i32x16, I, 4, 16, two, [31, 30, 29, 28, 27, 26, 25, 24, 23, 22, 21, 20, 19, 18, 17, 16]}
shuf!{i64x2, i64x2, I, 8, 2, two, [0, 0]}
shuf!{i64x2, i64x2, I, 8, 2, two, [3, 2]}
shuf!{i64x2, i64x2, I, 8, 2, one, [1, 0]}
shuf!{i64x2, i64x2, I, 8, 2, one, [1, 0]}
shuf!{i64x2, i64x2, I, 8, 2, two, [3, 2]}
shuf!{i64x2, i64x4, I, 8, 2, two, [2, 2, 2, 0]}
shuf!{i64x2, i64x4, I, 8, 2, two, [3, 0, 2, 1]}
shuf!{i64x2, i64x4, I, 8, 2, one, [1, 1, 0, 1]}
shuf!{i64x2, i64x8, I, 8, 2, two, [1, 2, 2, 0, 0, 3, 1, 3]}
shuf!{i64x2, i64x8, I, 8, 2, two, [2, 3, 0, 1, 2, 3, 0, 1]}
shuf!{i64x2, i64x8, I, 8, 2, one, [1, 1, 0, 0, 0, 0, 1, 0]}
shuf!{i64x4, i64x2, I, 8, 4, two, [4, 4]}
shuf!{i64x4, i64x2, I, 8, 4, two, [5, 3]}
shuf!{i64x4, i64x2, I, 8, 4, one, [2, 1]}
shuf!{i64x4, i64x4, I, 8, 4, two, [5, 7, 5, 5]}
shuf!{i64x4, i64x4, I, 8, 4, two, [4, 1, 7, 3]}
shuf!{i64x4, i64x4, I, 8, 4, one, [1, 2, 3, 0]}
shuf!{i64x4, i64x4, I, 8, 4, one, [3, 0, 2, 1]}
shuf!{i64x4, i64x4, I, 8, 4, two, [7, 6, 5, 4]}
shuf!{i64x4, i64x8, I, 8, 4, two, [4, 6, 0, 5, 5, 4, 7, 3]}
shuf!{i64x4, i64x8, I, 8, 4, two, [5, 7, 3, 2, 4, 6, 1, 0]}
shuf!{i64x4, i64x8, I, 8, 4, one, [1, 3, 0, 1, 3, 2, 0, 0]}
shuf!{i64x8, i64x2, I, 8, 8, two, [4, 8]}
shuf!{i64x8, i64x2, I, 8, 8, two, [5, 4]}
shuf!{i64x8, i64x2, I, 8, 8, one, [2, 7]}
shuf!{i64x8, i64x4, I, 8, 8, two, [11, 6, 14, 11]}
shuf!{i64x8, i64x4, I, 8, 8, two, [8, 0, 11, 7]}
shuf!{i64x8, i64x4, I, 8, 8, one, [6, 0, 4, 4]}
shuf!{i64x8, i64x8, I, 8, 8, two, [2, 14, 6, 10, 15, 9, 0, 11]}
shuf!{i64x8, i64x8, I, 8, 8, two, [14, 6, 11, 5, 13, 1, 0, 7]}
shuf!{i64x8, i64x8, I, 8, 8, one, [3, 7, 5, 2, 1, 1, 6, 3]}
shuf!{i64x8, i64x8, I, 8, 8, one, [2, 7, 4, 3, 5, 1, 6, 0]}
shuf!{i64x8, i64x8, I, 8, 8, two, [15, 14, 13, 12, 11, 10, 9, 8]}
shuf!{i128x1, i128x2, I, 16, 1, two, [1, 0]}
shuf!{i128x1, i128x2, I, 16, 1, two, [1, 0]}
shuf!{i128x1, i128x2, I, 16, 1, one, [0, 0]}
shuf!{i128x1, i128x4, I, 16, 1, two, [0, 1, 0, 0]}
shuf!{i128x1, i128x4, I, 16, 1, two, [1, 0, 1, 0]}
shuf!{i128x1, i128x4, I, 16, 1, one, [0, 0, 0, 0]}
shuf!{i128x2, i128x2, I, 16, 2, two, [1, 1]}
shuf!{i128x2, i128x2, I, 16, 2, two, [0, 2]}
shuf!{i128x2, i128x2, I, 16, 2, one, [0, 1]}
shuf!{i128x2, i128x2, I, 16, 2, one, [1, 0]}
shuf!{i128x2, i128x2, I, 16, 2, two, [3, 2]}
shuf!{i128x2, i128x4, I, 16, 2, two, [3, 3, 3, 1]}
shuf!{i128x2, i128x4, I, 16, 2, two, [3, 2, 0, 1]}
shuf!{i128x2, i128x4, I, 16, 2, one, [0, 0, 0, 1]}
shuf!{i128x4, i128x2, I, 16, 4, two, [4, 2]}
shuf!{i128x4, i128x2, I, 16, 4, two, [2, 4]}
shuf!{i128x4, i128x2, I, 16, 4, one, [2, 3]}
shuf!{i128x4, i128x4, I, 16, 4, two, [3, 4, 3, 2]}
shuf!{i128x4, i128x4, I, 16, 4, two, [2, 4, 5, 3]}
shuf!{i128x4, i128x4, I, 16, 4, one, [3, 0, 0, 3]}
shuf!{i128x4, i128x4, I, 16, 4, one, [1, 2, 0, 3]}
shuf!{i128x4, i128x4, I, 16, 4, two, [7, 6, 5, 4]}
shuf!{isizex2, isizex2, I, 8, 2, two, [0, 0]}
shuf!{isizex2, isizex2, I, 8, 2, two, [1, 2]}
shuf!{isizex2, isizex2, I, 8, 2, one, [1, 0]}
shuf!{isizex2, isizex2, I, 8, 2, one, [0, 1]}
shuf!{isizex2, isizex2, I, 8, 2, two, [3, 2]}
shuf!{isizex2, isizex4, I, 8, 2, two, [3, 0, 1, 1]}
shuf!{isizex2, isizex4, I, 8, 2, two, [3, 2, 0, 1]}
shuf!{isizex2, isizex4, I, 8, 2, one, [0, 1, 0, 1]}
shuf!{isizex2, isizex8, I, 8, 2, two, [0, 2, 0, 3, 3, 2, 0, 3]}
shuf!{isizex2, isizex8, I, 8, 2, two, [0, 2, 3, 1, 0, 2, 3, 1]}
shuf!{isizex2, isizex8, I, 8, 2, one, [1, 0, 1, 0, 0, 0, 0, 0]}
shuf!{isizex4, isizex2, I, 8, 4, two, [5, 3]}
shuf!{isizex4, isizex2, I, 8, 4, two, [5, 4]}
shuf!{isizex4, isizex2, I, 8, 4, one, [0, 3]}
shuf!{isizex4, isizex4, I, 8, 4, two, [0, 0, 3, 4]}
shuf!{isizex4, isizex4, I, 8, 4, two, [1, 3, 7, 2]}
shuf!{isizex4, isizex4, I, 8, 4, one, [1, 0, 2, 2]}
shuf!{isizex4, isizex4, I, 8, 4, one, [0, 2, 3, 1]}
shuf!{isizex4, isizex4, I, 8, 4, two, [7, 6, 5, 4]}
shuf!{isizex4, isizex8, I, 8, 4, two, [7, 1, 4, 1, 5, 3, 1, 2]}
shuf!{isizex4, isizex8, I, 8, 4, two, [6, 5, 3, 7, 1, 2, 0, 4]}
shuf!{isizex4, isizex8, I, 8, 4, one, [2, 2, 3, 3, 1, 2, 3, 1]}
shuf!{isizex8, isizex2, I, 8, 8, two, [14, 5]}
shuf!{isizex8, isizex2, I, 8, 8, two, [6, 0]}
shuf!{isizex8, isizex2, I, 8, 8, one, [7, 1]}
shuf!{isizex8, isizex4, I, 8, 8, two, [5, 9, 7, 3]}
shuf!{isizex8, isizex4, I, 8, 8, two, [5, 1, 3, 4]}
shuf!{isizex8, isizex4, I, 8, 8, one, [6, 5, 1, 3]}
shuf!{isizex8, isizex8, I, 8, 8, two, [8, 8, 3, 4, 2, 13, 6, 13]}
shuf!{isizex8, isizex8, I, 8, 8, two, [6, 1, 15, 8, 9, 10, 7, 5]}
shuf!{isizex8, isizex8, I, 8, 8, one, [1, 4, 6, 0, 5, 3, 6, 5]}
shuf!{isizex8, isizex8, I, 8, 8, one, [6, 3, 0, 2, 7, 5, 4, 1]}
shuf!{isizex8, isizex8, I, 8, 8, two, [15, 14, 13, 12, 11, 10, 9, 8]}
shuf!{u8x2, u8x2, U, 1, 2, two, [2, 1]}
shuf!{u8x2, u8x2, U, 1, 2, two, [0, 3]}
shuf!{u8x2, u8x2, U, 1, 2, one, [1, 1]}
shuf!{u8x2, u8x2, U, 1, 2, one, [0, 1]}
shuf!{u8x2, u8x2, U, 1, 2, two, [3, 2]}
shuf!{u8x2, u8x4, U, 1, 2, two, [3, 0, 0, 2]}
shuf!{u8x2, u8x4, U, 1, 2, two, [3, 0, 2, 1]}
shuf!{u8x2, u8x4, U, 1, 2, one, [1, 0, 1, 1]}
shuf!{u8x2, u8x8, U, 1, 2, two, [2, 0, 2, 0, 3, 1, 0, 1]}
shuf!{u8x2, u8x8, U, 1, 2, two, [3, 0, 1, 2, 3, 0, 1, 2]}
shuf!{u8x2, u8x8, U, 1, 2, one, [0, 1, 0, 1, 1, 1, 0, 0]}
shuf!{u8x2, u8x16, U, 1, 2, two, [0, 2, 2, 1, 3, 1, 0, 3, 2, 0, 3, 0, 3, 3, 3, 0]}
shuf!{u8x2, u8x16, U, 1, 2, two, [3, 2, 1, 0, 3, 2, 1, 0, 3, 2, 1, 0, 3, 2, 1, 0]}
shuf!{u8x2, u8x16, U, 1, 2, one, [1, 1, 0, 1, 1, 0, 1, 0, 0, 0, 0, 0, 1, 1, 1, 1]}
shuf!{u8x2, u8x32, U, 1, 2, two, [3, 2, 1, 1, 2, 0, 0, 0, 0, 3, 0, 1, 0, 0, 2, 1, 3, 1, 3, 0, 2, 1, 0, 2, 0, 1, 0, 3, 3, 0, 3, 2]}
shuf!{u8x2, u8x32, U, 1, 2, two, [3, 2, 0, 1, 3, 2, 0, 1, 3, 2, 0, 1, 3, 2, 0, 1, 3, 2, 0, 1, 3, 2, 0, 1, 3, 2, 0, 1, 3, 2, 0, 1]}
shuf!{u8x2, u8x32, U, 1, 2, one, [0, 0, 0, 1, 0, 1, 0, 0, 1, 1, 0, 0, 1, 0, 1, 1, 0, 0, 0, 1, 0, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 0]}
shuf!{u8x2, u8x64, U, 1, 2, two, [0, 3, 1, 3, 2, 3, 2, 2, 1, 1, 2, 3, 3, 2, 1, 3, 2, 3, 3, 2, 0, 3, 1, 2, 1, 2, 1, 1, 1, 1, 0, 1, 1, 1, 1, 2, 3, 3, 0, 0, 3, 0, 3, 0, 0, 2, 2, 3, 1, 2, 3, 1, 0, 0, 0, 0, 0, 1, 0, 3, 3, 0, 3, 1]}
shuf!{u8x2, u8x64, U, 1, 2, two, [2, 3, 1, 0, 2, 3, 1, 0, 2, 3, 1, 0, 2, 3, 1, 0, 2, 3, 1, 0, 2, 3, 1, 0, 2, 3, 1, 0, 2, 3, 1, 0, 2, 3, 1, 0, 2, 3, 1, 0, 2, 3, 1, 0, 2, 3, 1, 0, 2, 3, 1, 0, 2, 3, 1, 0, 2, 3, 1, 0, 2, 3, 1, 0]}
shuf!{u8x2, u8x64, U, 1, 2, one, [0, 1, 1, 1, 0, 0, 1, 1, 0, 0, 1, 0, 1, 0, 1, 1, 0, 1, 0, 1, 1, 1, 0, 1, 1, 0, 0, 0, 1, 1, 1, 1, 0, 0, 1, 0, 0, 1, 0, 0, 0, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 0, 1, 0, 0, 0, 0, 0, 1, 0, 0, 0, 1, 1]}
shuf!{u8x4, u8x2, U, 1, 4, two, [6, 7]}
shuf!{u8x4, u8x2, U, 1, 4, two, [4, 2]}
shuf!{u8x4, u8x2, U, 1, 4, one, [0, 2]}
shuf!{u8x4, u8x4, U, 1, 4, two, [6, 4, 6, 6]}
shuf!{u8x4, u8x4, U, 1, 4, two, [7, 0, 3, 2]}
shuf!{u8x4, u8x4, U, 1, 4, one, [3, 1, 2, 3]}
shuf!{u8x4, u8x4, U, 1, 4, one, [2, 0, 1, 3]}
shuf!{u8x4, u8x4, U, 1, 4, two, [7, 6, 5, 4]}
shuf!{u8x4, u8x8, U, 1, 4, two, [1, 2, 3, 7, 0, 2, 1, 7]}
shuf!{u8x4, u8x8, U, 1, 4, two, [3, 1, 7, 4, 5, 0, 6, 2]}
shuf!{u8x4, u8x8, U, 1, 4, one, [2, 3, 0, 3, 1, 3, 3, 1]}
shuf!{u8x4, u8x16, U, 1, 4, two, [1, 7, 6, 4, 2, 2, 1, 1, 3, 7, 4, 7, 5, 2, 7, 5]}
shuf!{u8x4, u8x16, U, 1, 4, two, [3, 7, 5, 6, 2, 0, 1, 4, 3, 7, 5, 6, 2, 0, 1, 4]}
shuf!{u8x4, u8x16, U, 1, 4, one, [2, 0, 0, 2, 2, 0, 3, 3, 0, 3, 0, 0, 3, 1, 3, 3]}
shuf!{u8x4, u8x32, U, 1, 4, two, [2, 1, 5, 4, 5, 5, 5, 6, 0, 5, 0, 2, 6, 3, 2, 6, 3, 6, 1, 3, 4, 6, 0, 5, 5, 2, 7, 6, 6, 3, 5, 3]}
shuf!{u8x4, u8x32, U, 1, 4, two, [3, 4, 6, 5, 1, 7, 2, 0, 3, 4, 6, 5, 1, 7, 2, 0, 3, 4, 6, 5, 1, 7, 2, 0, 3, 4, 6, 5, 1, 7, 2, 0]}
shuf!{u8x4, u8x32, U, 1, 4, one, [0, 1, 3, 1, 3, 2, 0, 2, 1, 0, 3, 2, 3, 1, 1, 0, 0, 1, 2, 3, 0, 1, 3, 2, 3, 1, 2, 1, 3, 0, 1, 1]}
shuf!{u8x4, u8x64, U, 1, 4, two, [7, 0, 6, 3, 2, 2, 6, 0, 0, 0, 7, 6, 5, 5, 0, 7, 2, 5, 1, 0, 7, 4, 7, 1, 4, 6, 3, 4, 1, 0, 4, 3, 2, 5, 0, 0, 5, 6, 0, 6, 6, 0, 0, 5, 5, 0, 3, 5, 3, 6, 3, 4, 0, 4, 7, 5, 6, 3, 5, 1, 0, 3, 4, 6]}
shuf!{u8x4, u8x64, U, 1, 4, two, [1, 4, 7, 5, 6, 2, 3, 0, 1, 4, 7, 5, 6, 2, 3, 0, 1, 4, 7, 5, 6, 2, 3, 0, 1, 4, 7, 5, 6, 2, 3, 0, 1, 4, 7, 5, 6, 2, 3, 0, 1, 4, 7, 5, 6, 2, 3, 0, 1, 4, 7, 5, 6, 2, 3, 0, 1, 4, 7, 5, 6, 2, 3, 0]}
shuf!{u8x4, u8x64, U, 1, 4, one, [0, 2, 1, 0, 1, 2, 0, 1, 3, 2, 0, 2, 1, 2, 3, 3, 0, 2, 3, 0, 1, 1, 1, 2, 0, 3, 2, 2, 2, 1, 2, 1, 1, 3, 1, 3, 0, 1, 0, 3, 2, 1, 3, 2, 2, 2, 2, 0, 1, 1, 3, 1, 3, 1, 0, 0, 2, 3, 0, 0, 3, 3, 3, 3]}
shuf!{u8x8, u8x2, U, 1, 8, two, [7, 9]}
shuf!{u8x8, u8x2, U, 1, 8, two, [0, 7]}
shuf!{u8x8, u8x2, U, 1, 8, one, [4, 7]}
shuf!{u8x8, u8x4, U, 1, 8, two, [4, 3, 6, 0]}
shuf!{u8x8, u8x4, U, 1, 8, two, [6, 5, 13, 8]}
shuf!{u8x8, u8x4, U, 1, 8, one, [7, 0, 2, 6]}
shuf!{u8x8, u8x8, U, 1, 8, two, [4, 12, 2, 13, 14, 7, 8, 12]}
shuf!{u8x8, u8x8, U, 1, 8, two, [7, 3, 0, 15, 12, 13, 14, 6]}
shuf!{u8x8, u8x8, U, 1, 8, one, [6, 0, 7, 6, 6, 6, 2, 7]}
shuf!{u8x8, u8x8, U, 1, 8, one, [1, 2, 4, 5, 6, 3, 0, 7]}
shuf!{u8x8, u8x8, U, 1, 8, two, [15, 14, 13, 12, 11, 10, 9, 8]}
shuf!{u8x8, u8x16, U, 1, 8, two, [15, 14, 4, 12, 12, 11, 3, 6, 3, 1, 14, 9, 9, 11, 0, 11]}
shuf!{u8x8, u8x16, U, 1, 8, two, [5, 7, 9, 10, 13, 6, 8, 1, 2, 3, 15, 14, 0, 4, 11, 12]}
shuf!{u8x8, u8x16, U, 1, 8, one, [0, 4, 6, 4, 4, 3, 2, 5, 1, 7, 0, 7, 5, 4, 1, 5]}
shuf!{u8x8, u8x32, U, 1, 8, two, [11, 3, 11, 3, 14, 1, 9, 10, 12, 14, 8, 4, 6, 13, 7, 11, 14, 13, 13, 11, 4, 7, 14, 15, 4, 12, 15, 5, 10, 14, 7, 10]}
shuf!{u8x8, u8x32, U, 1, 8, two, [12, 9, 0, 14, 10, 11, 3, 5, 1, 7, 15, 6, 8, 13, 4, 2, 12, 9, 0, 14, 10, 11, 3, 5, 1, 7, 15, 6, 8, 13, 4, 2]}
shuf!{u8x8, u8x32, U, 1, 8, one, [7, 0, 1, 1, 0, 3, 6, 6, 7, 4, 0, 2, 1, 5, 7, 2, 4, 5, 0, 1, 4, 5, 2, 2, 0, 2, 7, 6, 4, 4, 2, 6]}
shuf!{u8x8, u8x64, U, 1, 8, two, [10, 8, 9, 9, 2, 0, 7, 0, 11, 1, 11, 0, 12, 2, 6, 15, 10, 4, 9, 12, 13, 8, 15, 6, 8, 14, 15, 8, 3, 13, 12, 15, 0, 9, 5, 13, 3, 0, 4, 11, 12, 13, 12, 4, 1, 12, 8, 2, 15, 11, 1, 7, 0, 7, 11, 13, 4, 6, 1, 0, 4, 10, 4, 2]}
shuf!{u8x8, u8x64, U, 1, 8, two, [15, 12, 7, 4, 9, 6, 13, 10, 8, 0, 3, 11, 1, 2, 5, 14, 15, 12, 7, 4, 9, 6, 13, 10, 8, 0, 3, 11, 1, 2, 5, 14, 15, 12, 7, 4, 9, 6, 13, 10, 8, 0, 3, 11, 1, 2, 5, 14, 15, 12, 7, 4, 9, 6, 13, 10, 8, 0, 3, 11, 1, 2, 5, 14]}
shuf!{u8x8, u8x64, U, 1, 8, one, [1, 2, 4, 7, 1, 0, 0, 0, 6, 7, 3, 1, 1, 7, 2, 3, 0, 6, 6, 3, 4, 2, 7, 3, 4, 5, 6, 3, 6, 7, 6, 6, 0, 5, 0, 7, 7, 6, 2, 0, 2, 4, 2, 0, 3, 6, 6, 7, 2, 0, 5, 3, 1, 2, 5, 3, 1, 4, 3, 6, 4, 2, 6, 7]}
shuf!{u8x16, u8x2, U, 1, 16, two, [10, 13]}
shuf!{u8x16, u8x2, U, 1, 16, two, [21, 29]}
shuf!{u8x16, u8x2, U, 1, 16, one, [14, 6]}
shuf!{u8x16, u8x4, U, 1, 16, two, [24, 11, 31, 17]}
shuf!{u8x16, u8x4, U, 1, 16, two, [20, 23, 3, 24]}
shuf!{u8x16, u8x4, U, 1, 16, one, [7, 1, 8, 10]}
shuf!{u8x16, u8x8, U, 1, 16, two, [22, 20, 16, 29, 23, 18, 13, 24]}
shuf!{u8x16, u8x8, U, 1, 16, two, [20, 16, 12, 29, 6, 17, 4, 13]}
shuf!{u8x16, u8x8, U, 1, 16, one, [13, 1, 3, 5, 9, 13, 2, 14]}
shuf!{u8x16, u8x16, U, 1, 16, two, [22, 10, 14, 19, 10, 16, 23, 30, 29, 14, 19, 30, 1, 12, 24, 8]}
shuf!{u8x16, u8x16, U, 1, 16, two, [18, 31, 14, 1, 27, 0, 15, 30, 24, 7, 13, 23, 3, 12, 29, 20]}
shuf!{u8x16, u8x16, U, 1, 16, one, [9, 8, 15, 2, 1, 9, 15, 13, 2, 13, 0, 5, 11, 9, 6, 11]}
shuf!{u8x16, u8x16, U, 1, 16, one, [14, 15, 5, 9, 7, 11, 8, 13, 3, 2, 4, 1, 12, 0, 6, 10]}
shuf!{u8x16, u8x16, U, 1, 16, two, [31, 30, 29, 28, 27, 26, 25, 24, 23, 22, 21, 20, 19, 18, 17, 16]}
shuf!{u8x16, u8x32, U, 1, 16, two, [0, 20, 11, 31, 3, 9, 14, 18, 27, 23, 7, 19, 1, 12, 14, 13, 22, 6, 13, 16, 18, 16, 16, 30, 25, 26, 17, 28, 15, 5, 8, 22]}
shuf!{u8x16, u8x32, U, 1, 16, two, [3, 13, 10, 20, 12, 5, 6, 29, 14, 24, 4, 0, 27, 19, 1, 7, 31, 11, 16, 9, 25, 15, 28, 18, 2, 23, 22, 21, 8, 26, 17, 30]}
shuf!{u8x16, u8x32, U, 1, 16, one, [11, 1, 12, 6, 14, 10, 6, 2, 2, 0, 6, 8, 1, 11, 15, 4, 12, 8, 12, 15, 3, 1, 9, 12, 12, 11, 11, 11, 10, 10, 12, 4]}
shuf!{u8x16, u8x64, U, 1, 16, two, [10, 9, 22, 11, 3, 24, 18, 19, 8, 14, 6, 23, 28, 6, 2, 22, 16, 21, 12, 31, 14, 18, 7, 29, 28, 17, 2, 18, 30, 7, 14, 12, 25, 22, 18, 18, 25, 16, 17, 14, 15, 12, 8, 10, 21, 20, 15, 8, 8, 0, 20, 9, 5, 15, 31, 31, 10, 10, 5, 7, 27, 13, 9, 8]}
shuf!{u8x16, u8x64, U, 1, 16, two, [6, 21, 0, 28, 16, 20, 19, 24, 17, 12, 11, 13, 5, 29, 14, 9, 2, 26, 30, 4, 8, 31, 23, 3, 27, 10, 15, 25, 7, 18, 22, 1, 6, 21, 0, 28, 16, 20, 19, 24, 17, 12, 11, 13, 5, 29, 14, 9, 2, 26, 30, 4, 8, 31, 23, 3, 27, 10, 15, 25, 7, 18, 22, 1]}
shuf!{u8x16, u8x64, U, 1, 16, one, [3, 7, 2, 15, 13, 6, 13, 15, 7, 12, 11, 3, 13, 6, 0, 11, 7, 0, 14, 10, 5, 13, 2, 10, 8, 11, 7, 12, 13, 7, 2, 5, 0, 11, 14, 0, 4, 14, 15, 0, 3, 1, 7, 5, 2, 6, 14, 4, 2, 2, 12, 4, 9, 10, 9, 6, 1, 4, 14, 9, 10, 4, 1, 5]}
shuf!{u8x32, u8x2, U, 1, 32, two, [24, 45]}
shuf!{u8x32, u8x2, U, 1, 32, two, [47, 12]}
shuf!{u8x32, u8x2, U, 1, 32, one, [24, 30]}
shuf!{u8x32, u8x4, U, 1, 32, two, [63, 7, 6, 37]}
shuf!{u8x32, u8x4, U, 1, 32, two, [47, 52, 3, 9]}
shuf!{u8x32, u8x4, U, 1, 32, one, [17, 3, 22, 3]}
shuf!{u8x32, u8x8, U, 1, 32, two, [7, 61, 25, 11, 26, 21, 46, 7]}
shuf!{u8x32, u8x8, U, 1, 32, two, [3, 15, 32, 54, 5, 7, 29, 53]}
shuf!{u8x32, u8x8, U, 1, 32, one, [5, 25, 15, 17, 15, 17, 30, 16]}
shuf!{u8x32, u8x16, U, 1, 32, two, [59, 47, 55, 10, 31, 49, 19, 4, 39, 6, 12, 6, 26, 16, 29, 57]}
shuf!{u8x32, u8x16, U, 1, 32, two, [26, 4, 2, 60, 62, 32, 27, 61, 40, 19, 14, 13, 35, 7, 3, 43]}
shuf!{u8x32, u8x16, U, 1, 32, one, [28, 31, 2, 7, 29, 6, 24, 19, 21, 29, 16, 9, 4, 31, 13, 27]}
shuf!{u8x32, u8x32, U, 1, 32, two, [3, 22, 52, 12, 35, 48, 46, 61, 4, 51, 22, 11, 9, 25, 55, 43, 24, 25, 1, 6, 26, 55, 51, 30, 54, 41, 26, 3, 61, 58, 13, 34]}
shuf!{u8x32, u8x32, U, 1, 32, two, [3, 42, 28, 41, 52, 10, 47, 36, 56, 45, 49, 0, 43, 51, 13, 20, 50, 59, 32, 30, 38, 61, 14, 19, 11, 58, 9, 24, 37, 63, 8, 4]}
shuf!{u8x32, u8x32, U, 1, 32, one, [15, 28, 16, 29, 11, 27, 30, 25, 20, 31, 31, 6, 21, 10, 8, 24, 6, 7, 4, 5, 11, 24, 11, 4, 22, 30, 8, 24, 7, 5, 10, 27]}
shuf!{u8x32, u8x32, U, 1, 32, one, [30, 1, 20, 9, 14, 25, 11, 4, 23, 27, 8, 3, 2, 28, 17, 10, 18, 21, 15, 29, 7, 24, 6, 19, 16, 0, 31, 5, 12, 26, 22, 13]}
shuf!{u8x32, u8x32, U, 1, 32, two, [63, 62, 61, 60, 59, 58, 57, 56, 55, 54, 53, 52, 51, 50, 49, 48, 47, 46, 45, 44, 43, 42, 41, 40, 39, 38, 37, 36, 35, 34, 33, 32]}
shuf!{u8x32, u8x64, U, 1, 32, two, [39, 32, 15, 1, 48, 23, 32, 16, 50, 50, 7, 34, 15, 60, 35, 12, 45, 23, 2, 35, 36, 32, 45, 21, 2, 25, 33, 21, 35, 49, 30, 60, 33, 15, 3, 29, 47, 30, 30, 54, 21, 34, 50, 53, 54, 18, 5, 52, 49, 40, 33, 51, 46, 27, 0, 47, 24, 17, 31, 62, 26, 34, 56, 47]}
shuf!{u8x32, u8x64, U, 1, 32, two, [39, 5, 22, 61, 56, 26, 54, 18, 52, 38, 23, 30, 29, 55, 8, 0, 60, 21, 34, 1, 17, 36, 42, 12, 62, 28, 47, 3, 48, 58, 14, 53, 7, 46, 45, 59, 33, 57, 44, 63, 13, 27, 31, 37, 15, 40, 49, 11, 24, 4, 19, 6, 35, 9, 43, 2, 20, 32, 50, 41, 16, 51, 25, 10]}
shuf!{u8x32, u8x64, U, 1, 32, one, [0, 19, 27, 8, 13, 18, 16, 19, 19, 22, 2, 17, 29, 2, 7, 27, 11, 23, 19, 21, 3, 31, 16, 4, 0, 30, 1, 14, 26, 1, 30, 23, 3, 17, 17, 15, 24, 30, 19, 16, 0, 4, 31, 19, 19, 11, 8, 3, 18, 9, 27, 22, 6, 30, 13, 1, 24, 10, 5, 21, 3, 9, 6, 25]}
shuf!{u8x64, u8x2, U, 1, 64, two, [64, 26]}
shuf!{u8x64, u8x2, U, 1, 64, two, [54, 75]}
shuf!{u8x64, u8x2, U, 1, 64, one, [54, 4]}
shuf!{u8x64, u8x4, U, 1, 64, two, [68, 35, 74, 48]}
shuf!{u8x64, u8x4, U, 1, 64, two, [103, 65, 64, 38]}
shuf!{u8x64, u8x4, U, 1, 64, one, [54, 40, 31, 7]}
shuf!{u8x64, u8x8, U, 1, 64, two, [106, 39, 70, 78, 34, 76, 123, 97]}
shuf!{u8x64, u8x8, U, 1, 64, two, [113, 11, 9, 76, 32, 26, 13, 1]}
shuf!{u8x64, u8x8, U, 1, 64, one, [36, 9, 23, 60, 60, 11, 41, 13]}
shuf!{u8x64, u8x16, U, 1, 64, two, [0, 101, 125, 81, 37, 86, 117, 104, 46, 43, 49, 41, 107, 61, 30, 68]}
shuf!{u8x64, u8x16, U, 1, 64, two, [121, 103, 16, 11, 97, 107, 62, 4, 40, 39, 43, 52, 73, 125, 27, 69]}
shuf!{u8x64, u8x16, U, 1, 64, one, [9, 54, 1, 23, 4, 54, 27, 9, 34, 44, 57, 21, 44, 33, 19, 38]}
shuf!{u8x64, u8x32, U, 1, 64, two, [12, 36, 66, 94, 15, 105, 47, 66, 125, 66, 41, 16, 98, 74, 32, 119, 13, 34, 12, 81, 81, 52, 88, 126, 70, 125, 87, 96, 48, 50, 121, 77]}
shuf!{u8x64, u8x32, U, 1, 64, two, [25, 62, 46, 90, 20, 48, 79, 78, 33, 5, 105, 88, 108, 35, 120, 24, 3, 27, 36, 98, 12, 8, 31, 126, 6, 41, 7, 95, 53, 112, 106, 93]}
shuf!{u8x64, u8x32, U, 1, 64, one, [38, 19, 46, 58, 43, 18, 26, 11, 52, 46, 54, 53, 56, 18, 7, 23, 3, 7, 40, 57, 50, 39, 15, 46, 55, 42, 39, 48, 11, 34, 5, 2]}
shuf!{u8x64, u8x64, U, 1, 64, two, [99, 113, 5, 28, 7, 42, 27, 33, 102, 122, 15, 72, 125, 96, 52, 48, 53, 4, 61, 22, 23, 15, 23, 103, 116, 12, 49, 1, 99, 83, 96, 50, 29, 97, 11, 93, 98, 52, 100, 77, 126, 73, 37, 61, 20, 124, 6, 3, 47, 59, 116, 27, 107, 126, 116, 26, 59, 50, 127, 107, 19, 36, 92, 71]}
shuf!{u8x64, u8x64, U, 1, 64, two, [95, 24, 50, 86, 91, 85, 8, 105, 12, 48, 27, 81, 87, 29, 7, 69, 74, 23, 11, 54, 32, 52, 47, 82, 61, 97, 114, 96, 55, 103, 33, 109, 94, 41, 63, 104, 60, 30, 22, 113, 15, 39, 56, 80, 88, 36, 9, 42, 25, 125, 20, 121, 118, 10, 73, 14, 62, 89, 102, 70, 107, 45, 119, 76]}
shuf!{u8x64, u8x64, U, 1, 64, one, [46, 10, 2, 28, 20, 11, 36, 22, 6, 55, 43, 22, 21, 34, 46, 14, 4, 42, 2, 36, 2, 59, 61, 29, 44, 28, 48, 62, 12, 18, 22, 32, 62, 17, 18, 31, 43, 53, 35, 14, 45, 1, 34, 37, 7, 56, 6, 50, 8, 7, 42, 32, 39, 26, 40, 10, 21, 17, 33, 26, 6, 3, 48, 1]}
shuf!{u8x64, u8x64, U, 1, 64, one, [33, 25, 37, 45, 57, 53, 58, 29, 38, 10, 61, 44, 22, 2, 34, 30, 42, 46, 3, 52, 19, 16, 56, 8, 35, 41, 18, 1, 28, 6, 49, 32, 62, 51, 24, 4, 21, 59, 26, 36, 15, 47, 43, 60, 5, 14, 39, 54, 31, 27, 40, 12, 23, 50, 9, 48, 63, 7, 20, 17, 11, 0, 55, 13]}
shuf!{u8x64, u8x64, U, 1, 64, two, [127, 126, 125, 124, 123, 122, 121, 120, 119, 118, 117, 116, 115, 114, 113, 112, 111, 110, 109, 108, 107, 106, 105, 104, 103, 102, 101, 100, 99, 98, 97, 96, 95, 94, 93, 92, 91, 90, 89, 88, 87, 86, 85, 84, 83, 82, 81, 80, 79, 78, 77, 76, 75, 74, 73, 72, 71, 70, 69, 68, 67, 66, 65, 64]}
shuf!{u16x2, u16x2, U, 2, 2, two, [3, 3]}
shuf!{u16x2, u16x2, U, 2, 2, two, [2, 1]}
shuf!{u16x2, u16x2, U, 2, 2, one, [0, 0]}
shuf!{u16x2, u16x2, U, 2, 2, one, [0, 1]}
shuf!{u16x2, u16x2, U, 2, 2, two, [3, 2]}
shuf!{u16x2, u16x4, U, 2, 2, two, [3, 1, 1, 0]}
shuf!{u16x2, u16x4, U, 2, 2, two, [1, 2, 0, 3]}
shuf!{u16x2, u16x4, U, 2, 2, one, [1, 1, 0, 1]}
shuf!{u16x2, u16x8, U, 2, 2, two, [2, 2, 1, 0, 2, 2, 2, 2]}
shuf!{u16x2, u16x8, U, 2, 2, two, [0, 3, 2, 1, 0, 3, 2, 1]}
shuf!{u16x2, u16x8, U, 2, 2, one, [1, 0, 0, 0, 0, 1, 0, 0]}
shuf!{u16x2, u16x16, U, 2, 2, two, [3, 3, 1, 2, 3, 1, 3, 2, 0, 0, 3, 1, 2, 3, 3, 3]}
shuf!{u16x2, u16x16, U, 2, 2, two, [0, 1, 3, 2, 0, 1, 3, 2, 0, 1, 3, 2, 0, 1, 3, 2]}
shuf!{u16x2, u16x16, U, 2, 2, one, [0, 1, 0, 0, 1, 1, 0, 0, 1, 0, 1, 0, 0, 0, 1, 0]}
shuf!{u16x2, u16x32, U, 2, 2, two, [1, 0, 1, 1, 1, 2, 0, 1, 2, 3, 1, 0, 0, 2, 1, 3, 3, 2, 0, 1, 1, 0, 2, 1, 3, 3, 3, 3, 0, 2, 0, 1]}
shuf!{u16x2, u16x32, U, 2, 2, two, [3, 2, 1, 0, 3, 2, 1, 0, 3, 2, 1, 0, 3, 2, 1, 0, 3, 2, 1, 0, 3, 2, 1, 0, 3, 2, 1, 0, 3, 2, 1, 0]}
shuf!{u16x2, u16x32, U, 2, 2, one, [1, 1, 1, 0, 1, 1, 1, 1, 0, 1, 1, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 1, 1, 0, 0, 1, 1, 0, 1, 0, 0, 1]}
shuf!{u16x4, u16x2, U, 2, 4, two, [0, 4]}
shuf!{u16x4, u16x2, U, 2, 4, two, [0, 1]}
shuf!{u16x4, u16x2, U, 2, 4, one, [1, 1]}
shuf!{u16x4, u16x4, U, 2, 4, two, [0, 6, 2, 7]}
shuf!{u16x4, u16x4, U, 2, 4, two, [0, 1, 5, 2]}
shuf!{u16x4, u16x4, U, 2, 4, one, [1, 1, 1, 2]}
shuf!{u16x4, u16x4, U, 2, 4, one, [0, 3, 1, 2]}
shuf!{u16x4, u16x4, U, 2, 4, two, [7, 6, 5, 4]}
shuf!{u16x4, u16x8, U, 2, 4, two, [5, 3, 6, 0, 0, 1, 2, 1]}
shuf!{u16x4, u16x8, U, 2, 4, two, [4, 1, 3, 6, 7, 0, 5, 2]}
shuf!{u16x4, u16x8, U, 2, 4, one, [1, 2, 3, 2, 0, 0, 2, 1]}
shuf!{u16x4, u16x16, U, 2, 4, two, [3, 0, 3, 1, 1, 3, 2, 1, 6, 2, 6, 5, 2, 3, 3, 5]}
shuf!{u16x4, u16x16, U, 2, 4, two, [1, 2, 5, 0, 4, 3, 7, 6, 1, 2, 5, 0, 4, 3, 7, 6]}
shuf!{u16x4, u16x16, U, 2, 4, one, [3, 2, 3, 1, 3, 2, 2, 1, 1, 3, 1, 3, 3, 0, 0, 2]}
shuf!{u16x4, u16x32, U, 2, 4, two, [5, 7, 5, 4, 1, 1, 5, 3, 3, 3, 2, 0, 4, 2, 4, 0, 2, 1, 5, 7, 2, 4, 1, 1, 5, 6, 6, 4, 4, 3, 4, 4]}
shuf!{u16x4, u16x32, U, 2, 4, two, [0, 3, 1, 6, 5, 7, 2, 4, 0, 3, 1, 6, 5, 7, 2, 4, 0, 3, 1, 6, 5, 7, 2, 4, 0, 3, 1, 6, 5, 7, 2, 4]}
shuf!{u16x4, u16x32, U, 2, 4, one, [0, 0, 1, 3, 0, 3, 1, 3, 2, 3, 3, 2, 1, 3, 3, 2, 2, 0, 2, 1, 1, 1, 2, 0, 0, 2, 0, 0, 0, 0, 0, 2]}
shuf!{u16x8, u16x2, U, 2, 8, two, [7, 5]}
shuf!{u16x8, u16x2, U, 2, 8, two, [5, 14]}
shuf!{u16x8, u16x2, U, 2, 8, one, [2, 2]}
shuf!{u16x8, u16x4, U, 2, 8, two, [4, 10, 4, 14]}
shuf!{u16x8, u16x4, U, 2, 8, two, [6, 7, 15, 1]}
shuf!{u16x8, u16x4, U, 2, 8, one, [4, 3, 4, 0]}
shuf!{u16x8, u16x8, U, 2, 8, two, [5, 11, 4, 8, 1, 12, 1, 0]}
shuf!{u16x8, u16x8, U, 2, 8, two, [4, 7, 15, 10, 6, 8, 9, 1]}
shuf!{u16x8, u16x8, U, 2, 8, one, [7, 6, 2, 6, 6, 5, 6, 1]}
shuf!{u16x8, u16x8, U, 2, 8, one, [0, 4, 5, 1, 6, 2, 3, 7]}
shuf!{u16x8, u16x8, U, 2, 8, two, [15, 14, 13, 12, 11, 10, 9, 8]}
shuf!{u16x8, u16x16, U, 2, 8, two, [11, 1, 9, 9, 2, 12, 4, 5, 15, 12, 3, 8, 10, 9, 8, 5]}
shuf!{u16x8, u16x16, U, 2, 8, two, [12, 6, 9, 11, 3, 10, 4, 14, 13, 7, 1, 5, 0, 8, 15, 2]}
shuf!{u16x8, u16x16, U, 2, 8, one, [3, 3, 5, 2, 3, 2, 7, 2, 4, 7, 1, 7, 6, 6, 7, 4]}
shuf!{u16x8, u16x32, U, 2, 8, two, [1, 3, 7, 12, 8, 0, 14, 6, 9, 6, 13, 8, 13, 5, 15, 4, 12, 11, 13, 12, 0, 3, 4, 13, 4, 7, 11, 0, 0, 10, 3, 6]}
shuf!{u16x8, u16x32, U, 2, 8, two, [13, 9, 0, 5, 2, 3, 4, 6, 7, 12, 8, 10, 15, 1, 14, 11, 13, 9, 0, 5, 2, 3, 4, 6, 7, 12, 8, 10, 15, 1, 14, 11]}
shuf!{u16x8, u16x32, U, 2, 8, one, [1, 4, 4, 5, 5, 2, 7, 4, 5, 0, 1, 5, 6, 6, 5, 1, 2, 4, 3, 1, 4, 3, 6, 4, 6, 4, 0, 4, 4, 3, 1, 0]}
shuf!{u16x16, u16x2, U, 2, 16, two, [16, 15]}
shuf!{u16x16, u16x2, U, 2, 16, two, [31, 20]}
shuf!{u16x16, u16x2, U, 2, 16, one, [4, 15]}
shuf!{u16x16, u16x4, U, 2, 16, two, [10, 20, 11, 18]}
shuf!{u16x16, u16x4, U, 2, 16, two, [23, 5, 2, 12]}
shuf!{u16x16, u16x4, U, 2, 16, one, [4, 1, 8, 4]}
shuf!{u16x16, u16x8, U, 2, 16, two, [4, 19, 3, 18, 27, 29, 11, 16]}
shuf!{u16x16, u16x8, U, 2, 16, two, [13, 1, 12, 20, 28, 14, 0, 17]}
shuf!{u16x16, u16x8, U, 2, 16, one, [10, 14, 14, 13, 7, 8, 2, 10]}
shuf!{u16x16, u16x16, U, 2, 16, two, [15, 20, 12, 3, 12, 13, 18, 9, 8, 29, 14, 29, 25, 25, 8, 20]}
shuf!{u16x16, u16x16, U, 2, 16, two, [31, 8, 21, 28, 10, 14, 7, 1, 12, 16, 26, 5, 18, 2, 17, 4]}
shuf!{u16x16, u16x16, U, 2, 16, one, [1, 8, 14, 10, 3, 8, 9, 8, 15, 0, 13, 3, 8, 5, 12, 4]}
shuf!{u16x16, u16x16, U, 2, 16, one, [13, 12, 10, 6, 7, 0, 4, 8, 2, 3, 14, 15, 1, 9, 5, 11]}
shuf!{u16x16, u16x16, U, 2, 16, two, [31, 30, 29, 28, 27, 26, 25, 24, 23, 22, 21, 20, 19, 18, 17, 16]}
shuf!{u16x16, u16x32, U, 2, 16, two, [27, 30, 27, 0, 29, 22, 1, 6, 10, 31, 26, 13, 29, 13, 2, 10, 19, 9, 27, 14, 4, 30, 6, 13, 4, 29, 1, 4, 6, 30, 18, 19]}
shuf!{u16x16, u16x32, U, 2, 16, two, [27, 11, 26, 19, 1, 29, 4, 18, 3, 28, 0, 8, 13, 7, 20, 2, 6, 30, 21, 22, 14, 16, 25, 23, 15, 12, 9, 17, 24, 5, 31, 10]}
shuf!{u16x16, u16x32, U, 2, 16, one, [7, 2, 4, 5, 10, 15, 14, 0, 11, 15, 11, 15, 15, 7, 13, 0, 6, 4, 8, 11, 9, 1, 5, 0, 0, 13, 14, 13, 6, 15, 3, 8]}
shuf!{u16x32, u16x2, U, 2, 32, two, [35, 23]}
shuf!{u16x32, u16x2, U, 2, 32, two, [3, 48]}
shuf!{u16x32, u16x2, U, 2, 32, one, [6, 4]}
shuf!{u16x32, u16x4, U, 2, 32, two, [32, 16, 36, 58]}
shuf!{u16x32, u16x4, U, 2, 32, two, [57, 3, 31, 59]}
shuf!{u16x32, u16x4, U, 2, 32, one, [12, 25, 22, 28]}
shuf!{u16x32, u16x8, U, 2, 32, two, [29, 53, 46, 21, 27, 8, 45, 63]}
shuf!{u16x32, u16x8, U, 2, 32, two, [24, 6, 56, 43, 61, 14, 35, 1]}
shuf!{u16x32, u16x8, U, 2, 32, one, [29, 8, 14, 22, 7, 29, 5, 2]}
shuf!{u16x32, u16x16, U, 2, 32, two, [18, 34, 37, 13, 57, 19, 3, 56, 32, 21, 10, 55, 40, 42, 39, 55]}
shuf!{u16x32, u16x16, U, 2, 32, two, [34, 3, 14, 40, 24, 2, 31, 12, 4, 37, 33, 45, 20, 60, 44, 13]}
shuf!{u16x32, u16x16, U, 2, 32, one, [13, 7, 16, 7, 15, 20, 9, 18, 0, 8, 15, 16, 6, 31, 20, 22]}
shuf!{u16x32, u16x32, U, 2, 32, two, [4, 6, 53, 47, 45, 10, 50, 12, 10, 22, 27, 60, 15, 27, 63, 45, 62, 50, 61, 20, 13, 22, 51, 61, 20, 61, 38, 51, 36, 24, 37, 11]}
shuf!{u16x32, u16x32, U, 2, 32, two, [7, 49, 5, 53, 39, 41, 26, 62, 44, 23, 0, 6, 52, 55, 19, 8, 57, 2, 35, 47, 54, 11, 1, 34, 16, 42, 29, 31, 33, 37, 38, 13]}
shuf!{u16x32, u16x32, U, 2, 32, one, [12, 1, 17, 15, 15, 26, 23, 6, 8, 8, 29, 16, 4, 18, 7, 4, 15, 27, 30, 29, 17, 7, 22, 12, 23, 3, 16, 19, 0, 26, 26, 15]}
shuf!{u16x32, u16x32, U, 2, 32, one, [2, 23, 1, 26, 0, 30, 12, 16, 21, 31, 4, 7, 5, 8, 28, 6, 11, 13, 29, 20, 17, 9, 18, 24, 10, 25, 14, 27, 22, 19, 15, 3]}
shuf!{u16x32, u16x32, U, 2, 32, two, [63, 62, 61, 60, 59, 58, 57, 56, 55, 54, 53, 52, 51, 50, 49, 48, 47, 46, 45, 44, 43, 42, 41, 40, 39, 38, 37, 36, 35, 34, 33, 32]}
shuf!{u32x2, u32x2, U, 4, 2, two, [0, 1]}
shuf!{u32x2, u32x2, U, 4, 2, two, [0, 1]}
shuf!{u32x2, u32x2, U, 4, 2, one, [1, 1]}
shuf!{u32x2, u32x2, U, 4, 2, one, [0, 1]}
shuf!{u32x2, u32x2, U, 4, 2, two, [3, 2]}
shuf!{u32x2, u32x4, U, 4, 2, two, [0, 0, 2, 2]}
shuf!{u32x2, u32x4, U, 4, 2, two, [3, 0, 1, 2]}
shuf!{u32x2, u32x4, U, 4, 2, one, [1, 1, 0, 1]}
shuf!{u32x2, u32x8, U, 4, 2, two, [3, 3, 0, 2, 0, 2, 0, 1]}
shuf!{u32x2, u32x8, U, 4, 2, two, [3, 2, 1, 0, 3, 2, 1, 0]}
shuf!{u32x2, u32x8, U, 4, 2, one, [0, 1, 1, 0, 1, 1, 0, 0]}
shuf!{u32x2, u32x16, U, 4, 2, two, [3, 1, 0, 0, 3, 3, 0, 2, 0, 3, 2, 2, 2, 3, 1, 1]}
shuf!{u32x2, u32x16, U, 4, 2, two, [3, 0, 2, 1, 3, 0, 2, 1, 3, 0, 2, 1, 3, 0, 2, 1]}
shuf!{u32x2, u32x16, U, 4, 2, one, [1, 0, 1, 0, 1, 1, 0, 1, 1, 0, 0, 1, 1, 0, 1, 1]}
shuf!{u32x4, u32x2, U, 4, 4, two, [4, 4]}
shuf!{u32x4, u32x2, U, 4, 4, two, [3, 6]}
shuf!{u32x4, u32x2, U, 4, 4, one, [1, 2]}
shuf!{u32x4, u32x4, U, 4, 4, two, [1, 0, 1, 5]}
shuf!{u32x4, u32x4, U, 4, 4, two, [4, 2, 3, 6]}
shuf!{u32x4, u32x4, U, 4, 4, one, [3, 3, 3, 3]}
shuf!{u32x4, u32x4, U, 4, 4, one, [2, 0, 1, 3]}
shuf!{u32x4, u32x4, U, 4, 4, two, [7, 6, 5, 4]}
shuf!{u32x4, u32x8, U, 4, 4, two, [1, 6, 0, 1, 4, 2, 3, 3]}
shuf!{u32x4, u32x8, U, 4, 4, two, [4, 0, 5, 1, 3, 2, 7, 6]}
shuf!{u32x4, u32x8, U, 4, 4, one, [3, 2, 2, 2, 0, 3, 0, 1]}
shuf!{u32x4, u32x16, U, 4, 4, two, [7, 1, 3, 4, 4, 3, 0, 0, 4, 3, 7, 2, 6, 1, 4, 0]}
shuf!{u32x4, u32x16, U, 4, 4, two, [6, 7, 2, 0, 5, 4, 3, 1, 6, 7, 2, 0, 5, 4, 3, 1]}
shuf!{u32x4, u32x16, U, 4, 4, one, [0, 2, 3, 2, 3, 2, 3, 1, 2, 2, 1, 0, 3, 1, 0, 0]}
shuf!{u32x8, u32x2, U, 4, 8, two, [7, 11]}
shuf!{u32x8, u32x2, U, 4, 8, two, [9, 6]}
shuf!{u32x8, u32x2, U, 4, 8, one, [1, 0]}
shuf!{u32x8, u32x4, U, 4, 8, two, [3, 4, 1, 12]}
shuf!{u32x8, u32x4, U, 4, 8, two, [8, 9, 0, 4]}
shuf!{u32x8, u32x4, U, 4, 8, one, [7, 6, 3, 0]}
shuf!{u32x8, u32x8, U, 4, 8, two, [13, 6, 6, 3, 0, 4, 13, 14]}
shuf!{u32x8, u32x8, U, 4, 8, two, [15, 2, 3, 14, 0, 11, 7, 1]}
shuf!{u32x8, u32x8, U, 4, 8, one, [7, 6, 3, 6, 6, 5, 3, 4]}
shuf!{u32x8, u32x8, U, 4, 8, one, [0, 2, 7, 4, 6, 1, 3, 5]}
shuf!{u32x8, u32x8, U, 4, 8, two, [15, 14, 13, 12, 11, 10, 9, 8]}
shuf!{u32x8, u32x16, U, 4, 8, two, [12, 7, 3, 2, 13, 5, 13, 13, 4, 2, 7, 4, 8, 12, 11, 9]}
shuf!{u32x8, u32x16, U, 4, 8, two, [5, 0, 15, 1, 3, 7, 2, 8, 10, 4, 13, 6, 12, 11, 9, 14]}
shuf!{u32x8, u32x16, U, 4, 8, one, [2, 4, 3, 7, 5, 7, 1, 4, 2, 6, 5, 2, 2, 6, 3, 6]}
shuf!{u32x16, u32x2, U, 4, 16, two, [22, 14]}
shuf!{u32x16, u32x2, U, 4, 16, two, [25, 0]}
shuf!{u32x16, u32x2, U, 4, 16, one, [6, 0]}
shuf!{u32x16, u32x4, U, 4, 16, two, [26, 21, 0, 26]}
shuf!{u32x16, u32x4, U, 4, 16, two, [19, 21, 20, 4]}
shuf!{u32x16, u32x4, U, 4, 16, one, [13, 13, 13, 15]}
shuf!{u32x16, u32x8, U, 4, 16, two, [31, 20, 10, 29, 11, 15, 26, 0]}
shuf!{u32x16, u32x8, U, 4, 16, two, [30, 25, 3, 1, 24, 12, 27, 0]}
shuf!{u32x16, u32x8, U, 4, 16, one, [0, 11, 13, 7, 5, 6, 14, 9]}
shuf!{u32x16, u32x16, U, 4, 16, two, [25, 22, 28, 11, 11, 7, 1, 6, 24, 11, 27, 20, 29, 7, 10, 28]}
shuf!{u32x16, u32x16, U, 4, 16, two, [17, 7, 22, 16, 10, 20, 0, 23, 24, 26, 1, 30, 6, 9, 31, 13]}
shuf!{u32x16, u32x16, U, 4, 16, one, [5, 14, 11, 7, 10, 8, 6, 2, 1, 0, 8, 8, 15, 13, 10, 0]}
shuf!{u32x16, u32x16, U, 4, 16, one, [5, 10, 14, 13, 0, 12, 15, 3, 7, 1, 4, 11, 2, 8, 6, 9]}
shuf!{u32x16, u32x16, U, 4, 16, two, [31, 30, 29, 28, 27, 26, 25, 24, 23, 22, 21, 20, 19, 18, 17, 16]}
shuf!{u64x2, u64x2, U, 8, 2, two, [3, 2]}
shuf!{u64x2, u64x2, U, 8, 2, two, [0, 3]}
shuf!{u64x2, u64x2, U, 8, 2, one, [0, 1]}
shuf!{u64x2, u64x2, U, 8, 2, one, [1, 0]}
shuf!{u64x2, u64x2, U, 8, 2, two, [3, 2]}
shuf!{u64x2, u64x4, U, 8, 2, two, [1, 1, 0, 2]}
shuf!{u64x2, u64x4, U, 8, 2, two, [3, 1, 0, 2]}
shuf!{u64x2, u64x4, U, 8, 2, one, [1, 0, 1, 1]}
shuf!{u64x2, u64x8, U, 8, 2, two, [0, 1, 0, 3, 3, 3, 3, 1]}
shuf!{u64x2, u64x8, U, 8, 2, two, [0, 2, 1, 3, 0, 2, 1, 3]}
shuf!{u64x2, u64x8, U, 8, 2, one, [0, 0, 1, 0, 1, 0, 0, 0]}
shuf!{u64x4, u64x2, U, 8, 4, two, [2, 1]}
shuf!{u64x4, u64x2, U, 8, 4, two, [1, 6]}
shuf!{u64x4, u64x2, U, 8, 4, one, [2, 0]}
shuf!{u64x4, u64x4, U, 8, 4, two, [2, 0, 2, 3]}
shuf!{u64x4, u64x4, U, 8, 4, two, [6, 5, 4, 0]}
shuf!{u64x4, u64x4, U, 8, 4, one, [3, 2, 2, 3]}
shuf!{u64x4, u64x4, U, 8, 4, one, [2, 3, 0, 1]}
shuf!{u64x4, u64x4, U, 8, 4, two, [7, 6, 5, 4]}
shuf!{u64x4, u64x8, U, 8, 4, two, [4, 0, 5, 0, 7, 6, 5, 3]}
shuf!{u64x4, u64x8, U, 8, 4, two, [2, 1, 4, 7, 5, 0, 6, 3]}
shuf!{u64x4, u64x8, U, 8, 4, one, [1, 3, 2, 1, 1, 0, 1, 0]}
shuf!{u64x8, u64x2, U, 8, 8, two, [4, 2]}
shuf!{u64x8, u64x2, U, 8, 8, two, [8, 14]}
shuf!{u64x8, u64x2, U, 8, 8, one, [7, 5]}
shuf!{u64x8, u64x4, U, 8, 8, two, [2, 14, 2, 2]}
shuf!{u64x8, u64x4, U, 8, 8, two, [11, 14, 8, 2]}
shuf!{u64x8, u64x4, U, 8, 8, one, [6, 4, 2, 1]}
shuf!{u64x8, u64x8, U, 8, 8, two, [4, 12, 7, 1, 4, 8, 12, 13]}
shuf!{u64x8, u64x8, U, 8, 8, two, [14, 2, 10, 7, 11, 0, 15, 8]}
shuf!{u64x8, u64x8, U, 8, 8, one, [1, 3, 2, 7, 6, 4, 1, 2]}
shuf!{u64x8, u64x8, U, 8, 8, one, [2, 1, 5, 0, 7, 6, 4, 3]}
shuf!{u64x8, u64x8, U, 8, 8, two, [15, 14, 13, 12, 11, 10, 9, 8]}
shuf!{u128x1, u128x2, U, 16, 1, two, [0, 0]}
shuf!{u128x1, u128x2, U, 16, 1, two, [0, 1]}
shuf!{u128x1, u128x2, U, 16, 1, one, [0, 0]}
shuf!{u128x1, u128x4, U, 16, 1, two, [1, 0, 1, 1]}
shuf!{u128x1, u128x4, U, 16, 1, two, [1, 0, 1, 0]}
shuf!{u128x1, u128x4, U, 16, 1, one, [0, 0, 0, 0]}
shuf!{u128x2, u128x2, U, 16, 2, two, [3, 3]}
shuf!{u128x2, u128x2, U, 16, 2, two, [2, 0]}
shuf!{u128x2, u128x2, U, 16, 2, one, [1, 0]}
shuf!{u128x2, u128x2, U, 16, 2, one, [1, 0]}
shuf!{u128x2, u128x2, U, 16, 2, two, [3, 2]}
shuf!{u128x2, u128x4, U, 16, 2, two, [2, 0, 0, 0]}
shuf!{u128x2, u128x4, U, 16, 2, two, [1, 0, 3, 2]}
shuf!{u128x2, u128x4, U, 16, 2, one, [1, 1, 1, 1]}
shuf!{u128x4, u128x2, U, 16, 4, two, [1, 0]}
shuf!{u128x4, u128x2, U, 16, 4, two, [0, 6]}
shuf!{u128x4, u128x2, U, 16, 4, one, [3, 1]}
shuf!{u128x4, u128x4, U, 16, 4, two, [2, 1, 4, 5]}
shuf!{u128x4, u128x4, U, 16, 4, two, [3, 5, 6, 0]}
shuf!{u128x4, u128x4, U, 16, 4, one, [2, 1, 2, 2]}
shuf!{u128x4, u128x4, U, 16, 4, one, [1, 2, 0, 3]}
shuf!{u128x4, u128x4, U, 16, 4, two, [7, 6, 5, 4]}
shuf!{usizex2, usizex2, U, 8, 2, two, [2, 3]}
shuf!{usizex2, usizex2, U, 8, 2, two, [3, 1]}
shuf!{usizex2, usizex2, U, 8, 2, one, [1, 1]}
shuf!{usizex2, usizex2, U, 8, 2, one, [0, 1]}
shuf!{usizex2, usizex2, U, 8, 2, two, [3, 2]}
shuf!{usizex2, usizex4, U, 8, 2, two, [3, 3, 3, 0]}
shuf!{usizex2, usizex4, U, 8, 2, two, [1, 3, 2, 0]}
shuf!{usizex2, usizex4, U, 8, 2, one, [1, 1, 0, 0]}
shuf!{usizex2, usizex8, U, 8, 2, two, [3, 0, 1, 3, 3, 2, 0, 1]}
shuf!{usizex2, usizex8, U, 8, 2, two, [0, 3, 1, 2, 0, 3, 1, 2]}
shuf!{usizex2, usizex8, U, 8, 2, one, [0, 1, 1, 1, 1, 1, 0, 1]}
shuf!{usizex4, usizex2, U, 8, 4, two, [4, 7]}
shuf!{usizex4, usizex2, U, 8, 4, two, [6, 3]}
shuf!{usizex4, usizex2, U, 8, 4, one, [3, 0]}
shuf!{usizex4, usizex4, U, 8, 4, two, [1, 6, 1, 0]}
shuf!{usizex4, usizex4, U, 8, 4, two, [0, 7, 5, 1]}
shuf!{usizex4, usizex4, U, 8, 4, one, [1, 1, 0, 1]}
shuf!{usizex4, usizex4, U, 8, 4, one, [2, 0, 1, 3]}
shuf!{usizex4, usizex4, U, 8, 4, two, [7, 6, 5, 4]}
shuf!{usizex4, usizex8, U, 8, 4, two, [5, 6, 5, 0, 5, 7, 7, 1]}
shuf!{usizex4, usizex8, U, 8, 4, two, [0, 5, 6, 1, 3, 2, 4, 7]}
shuf!{usizex4, usizex8, U, 8, 4, one, [0, 0, 1, 0, 1, 1, 2, 3]}
shuf!{usizex8, usizex2, U, 8, 8, two, [2, 11]}
shuf!{usizex8, usizex2, U, 8, 8, two, [2, 7]}
shuf!{usizex8, usizex2, U, 8, 8, one, [7, 1]}
shuf!{usizex8, usizex4, U, 8, 8, two, [13, 11, 9, 0]}
shuf!{usizex8, usizex4, U, 8, 8, two, [12, 3, 8, 2]}
shuf!{usizex8, usizex4, U, 8, 8, one, [4, 7, 2, 4]}
shuf!{usizex8, usizex8, U, 8, 8, two, [2, 8, 4, 8, 13, 6, 6, 13]}
shuf!{usizex8, usizex8, U, 8, 8, two, [7, 2, 0, 14, 12, 5, 4, 11]}
shuf!{usizex8, usizex8, U, 8, 8, one, [7, 2, 5, 3, 2, 1, 1, 4]}
shuf!{usizex8, usizex8, U, 8, 8, one, [3, 7, 1, 5, 2, 6, 0, 4]}
shuf!{usizex8, usizex8, U, 8, 8, two, [15, 14, 13, 12, 11, 10, 9, 8]}
shuf!{f32x2, f32x2, F, 4, 2, two, [2, 2]}
shuf!{f32x2, f32x2, F, 4, 2, two, [1, 2]}
shuf!{f32x2, f32x2, F, 4, 2, one, [0, 0]}
shuf!{f32x2, f32x2, F, 4, 2, one, [0, 1]}
shuf!{f32x2, f32x2, F, 4, 2, two, [3, 2]}
shuf!{f32x2, f32x4, F, 4, 2, two, [2, 3, 1, 0]}
shuf!{f32x2, f32x4, F, 4, 2, two, [3, 1, 2, 0]}
shuf!{f32x2, f32x4, F, 4, 2, one, [0, 1, 1, 1]}
shuf!{f32x2, f32x8, F, 4, 2, two, [0, 0, 2, 2, 3, 2, 0, 1]}
shuf!{f32x2, f32x8, F, 4, 2, two, [0, 3, 2, 1, 0, 3, 2, 1]}
shuf!{f32x2, f32x8, F, 4, 2, one, [1, 1, 0, 0, 0, 1, 0, 1]}
shuf!{f32x2, f32x16, F, 4, 2, two, [1, 1, 1, 0, 3, 1, 3, 2, 3, 0, 1, 1, 1, 2, 0, 3]}
shuf!{f32x2, f32x16, F, 4, 2, two, [3, 1, 2, 0, 3, 1, 2, 0, 3, 1, 2, 0, 3, 1, 2, 0]}
shuf!{f32x2, f32x16, F, 4, 2, one, [1, 0, 1, 1, 1, 1, 1, 1, 0, 0, 1, 1, 0, 1, 1, 0]}
shuf!{f32x4, f32x2, F, 4, 4, two, [4, 3]}
shuf!{f32x4, f32x2, F, 4, 4, two, [0, 2]}
shuf!{f32x4, f32x2, F, 4, 4, one, [1, 2]}
shuf!{f32x4, f32x4, F, 4, 4, two, [6, 6, 1, 7]}
shuf!{f32x4, f32x4, F, 4, 4, two, [5, 7, 4, 1]}
shuf!{f32x4, f32x4, F, 4, 4, one, [0, 2, 1, 1]}
shuf!{f32x4, f32x4, F, 4, 4, one, [3, 0, 2, 1]}
shuf!{f32x4, f32x4, F, 4, 4, two, [7, 6, 5, 4]}
shuf!{f32x4, f32x8, F, 4, 4, two, [3, 5, 3, 3, 3, 0, 7, 2]}
shuf!{f32x4, f32x8, F, 4, 4, two, [6, 5, 0, 7, 4, 1, 2, 3]}
shuf!{f32x4, f32x8, F, 4, 4, one, [3, 2, 1, 1, 1, 1, 3, 1]}
shuf!{f32x4, f32x16, F, 4, 4, two, [7, 6, 4, 1, 5, 6, 0, 3, 7, 7, 5, 7, 3, 5, 1, 1]}
shuf!{f32x4, f32x16, F, 4, 4, two, [5, 6, 2, 4, 1, 0, 3, 7, 5, 6, 2, 4, 1, 0, 3, 7]}
shuf!{f32x4, f32x16, F, 4, 4, one, [2, 3, 1, 1, 2, 3, 0, 2, 1, 3, 3, 1, 0, 1, 3, 2]}
shuf!{f32x8, f32x2, F, 4, 8, two, [0, 13]}
shuf!{f32x8, f32x2, F, 4, 8, two, [14, 13]}
shuf!{f32x8, f32x2, F, 4, 8, one, [7, 6]}
shuf!{f32x8, f32x4, F, 4, 8, two, [1, 4, 0, 7]}
shuf!{f32x8, f32x4, F, 4, 8, two, [15, 12, 3, 6]}
shuf!{f32x8, f32x4, F, 4, 8, one, [0, 3, 4, 0]}
shuf!{f32x8, f32x8, F, 4, 8, two, [8, 14, 14, 12, 3, 10, 2, 3]}
shuf!{f32x8, f32x8, F, 4, 8, two, [4, 3, 9, 2, 14, 5, 1, 0]}
shuf!{f32x8, f32x8, F, 4, 8, one, [2, 6, 7, 4, 7, 0, 2, 1]}
shuf!{f32x8, f32x8, F, 4, 8, one, [3, 2, 4, 7, 5, 6, 0, 1]}
shuf!{f32x8, f32x8, F, 4, 8, two, [15, 14, 13, 12, 11, 10, 9, 8]}
shuf!{f32x8, f32x16, F, 4, 8, two, [4, 10, 11, 1, 6, 1, 3, 0, 0, 7, 7, 6, 6, 14, 9, 13]}
shuf!{f32x8, f32x16, F, 4, 8, two, [14, 0, 11, 2, 4, 7, 3, 1, 15, 5, 10, 8, 9, 6, 13, 12]}
shuf!{f32x8, f32x16, F, 4, 8, one, [3, 4, 5, 6, 3, 6, 3, 0, 5, 1, 3, 3, 1, 6, 4, 3]}
shuf!{f32x16, f32x2, F, 4, 16, two, [12, 10]}
shuf!{f32x16, f32x2, F, 4, 16, two, [29, 5]}
shuf!{f32x16, f32x2, F, 4, 16, one, [11, 2]}
shuf!{f32x16, f32x4, F, 4, 16, two, [22, 31, 12, 22]}
shuf!{f32x16, f32x4, F, 4, 16, two, [10, 0, 9, 16]}
shuf!{f32x16, f32x4, F, 4, 16, one, [9, 6, 12, 10]}
shuf!{f32x16, f32x8, F, 4, 16, two, [16, 2, 1, 13, 27, 10, 13, 6]}
shuf!{f32x16, f32x8, F, 4, 16, two, [17, 26, 0, 3, 19, 22, 25, 2]}
shuf!{f32x16, f32x8, F, 4, 16, one, [9, 8, 12, 4, 9, 13, 7, 7]}
shuf!{f32x16, f32x16, F, 4, 16, two, [18, 8, 1, 3, 28, 2, 6, 18, 31, 26, 30, 26, 9, 9, 3, 3]}
shuf!{f32x16, f32x16, F, 4, 16, two, [31, 26, 12, 17, 1, 23, 6, 19, 14, 5, 15, 10, 3, 13, 8, 22]}
shuf!{f32x16, f32x16, F, 4, 16, one, [1, 4, 15, 1, 7, 7, 9, 0, 9, 0, 7, 1, 11, 8, 2, 7]}
shuf!{f32x16, f32x16, F, 4, 16, one, [6, 4, 11, 10, 14, 15, 13, 8, 2, 7, 3, 12, 5, 0, 9, 1]}
shuf!{f32x16, f32x16, F, 4, 16, two, [31, 30, 29, 28, 27, 26, 25, 24, 23, 22, 21, 20, 19, 18, 17, 16]}
shuf!{f64x2, f64x2, F, 8, 2, two, [1, 3]}
shuf!{f64x2, f64x2, F, 8, 2, two, [1, 3]}
shuf!{f64x2, f64x2, F, 8, 2, one, [0, 0]}
shuf!{f64x2, f64x2, F, 8, 2, one, [0, 1]}
shuf!{f64x2, f64x2, F, 8, 2, two, [3, 2]}
shuf!{f64x2, f64x4, F, 8, 2, two, [3, 3, 3, 1]}
shuf!{f64x2, f64x4, F, 8, 2, two, [1, 2, 3, 0]}
shuf!{f64x2, f64x4, F, 8, 2, one, [0, 1, 1, 0]}
shuf!{f64x2, f64x8, F, 8, 2, two, [1, 2, 1, 1, 2, 0, 0, 3]}
shuf!{f64x2, f64x8, F, 8, 2, two, [1, 2, 3, 0, 1, 2, 3, 0]}
shuf!{f64x2, f64x8, F, 8, 2, one, [1, 0, 1, 1, 1, 0, 0, 1]}
shuf!{f64x4, f64x2, F, 8, 4, two, [5, 0]}
shuf!{f64x4, f64x2, F, 8, 4, two, [5, 6]}
shuf!{f64x4, f64x2, F, 8, 4, one, [2, 0]}
shuf!{f64x4, f64x4, F, 8, 4, two, [2, 3, 7, 5]}
shuf!{f64x4, f64x4, F, 8, 4, two, [5, 0, 1, 4]}
shuf!{f64x4, f64x4, F, 8, 4, one, [1, 1, 3, 3]}
shuf!{f64x4, f64x4, F, 8, 4, one, [2, 3, 0, 1]}
shuf!{f64x4, f64x4, F, 8, 4, two, [7, 6, 5, 4]}
shuf!{f64x4, f64x8, F, 8, 4, two, [1, 2, 1, 0, 2, 2, 3, 1]}
shuf!{f64x4, f64x8, F, 8, 4, two, [6, 7, 4, 2, 3, 1, 0, 5]}
shuf!{f64x4, f64x8, F, 8, 4, one, [2, 2, 2, 1, 3, 2, 3, 2]}
shuf!{f64x8, f64x2, F, 8, 8, two, [11, 0]}
shuf!{f64x8, f64x2, F, 8, 8, two, [15, 0]}
shuf!{f64x8, f64x2, F, 8, 8, one, [7, 1]}
shuf!{f64x8, f64x4, F, 8, 8, two, [9, 8, 7, 0]}
shuf!{f64x8, f64x4, F, 8, 8, two, [5, 10, 3, 2]}
shuf!{f64x8, f64x4, F, 8, 8, one, [2, 7, 6, 0]}
shuf!{f64x8, f64x8, F, 8, 8, two, [11, 0, 6, 1, 8, 0, 7, 1]}
shuf!{f64x8, f64x8, F, 8, 8, two, [10, 9, 3, 7, 2, 4, 8, 15]}
shuf!{f64x8, f64x8, F, 8, 8, one, [3, 7, 7, 7, 5, 5, 3, 7]}
shuf!{f64x8, f64x8, F, 8, 8, one, [6, 3, 2, 4, 0, 5, 7, 1]}
shuf!{f64x8, f64x8, F, 8, 8, two, [15, 14, 13, 12, 11, 10, 9, 8]}
shuf!{m8x2, m8x2, M, 1, 2, two, [3, 3]}
shuf!{m8x2, m8x2, M, 1, 2, two, [0, 1]}
shuf!{m8x2, m8x2, M, 1, 2, one, [0, 0]}
shuf!{m8x2, m8x2, M, 1, 2, one, [1, 0]}
shuf!{m8x2, m8x2, M, 1, 2, two, [3, 2]}
shuf!{m8x2, m8x4, M, 1, 2, two, [3, 0, 2, 1]}
shuf!{m8x2, m8x4, M, 1, 2, two, [3, 2, 1, 0]}
shuf!{m8x2, m8x4, M, 1, 2, one, [1, 1, 0, 0]}
shuf!{m8x2, m8x8, M, 1, 2, two, [2, 0, 2, 3, 1, 1, 3, 0]}
shuf!{m8x2, m8x8, M, 1, 2, two, [1, 0, 2, 3, 1, 0, 2, 3]}
shuf!{m8x2, m8x8, M, 1, 2, one, [0, 0, 1, 0, 1, 1, 0, 1]}
shuf!{m8x2, m8x16, M, 1, 2, two, [1, 0, 0, 1, 1, 3, 0, 2, 3, 1, 1, 0, 3, 1, 1, 3]}
shuf!{m8x2, m8x16, M, 1, 2, two, [0, 3, 2, 1, 0, 3, 2, 1, 0, 3, 2, 1, 0, 3, 2, 1]}
shuf!{m8x2, m8x16, M, 1, 2, one, [0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0]}
shuf!{m8x2, m8x32, M, 1, 2, two, [2, 1, 2, 2, 2, 3, 2, 2, 2, 1, 3, 3, 2, 2, 1, 3, 1, 3, 0, 3, 1, 2, 2, 1, 3, 2, 2, 1, 2, 3, 3, 0]}
shuf!{m8x2, m8x32, M, 1, 2, two, [3, 1, 2, 0, 3, 1, 2, 0, 3, 1, 2, 0, 3, 1, 2, 0, 3, 1, 2, 0, 3, 1, 2, 0, 3, 1, 2, 0, 3, 1, 2, 0]}
shuf!{m8x2, m8x32, M, 1, 2, one, [0, 0, 0, 0, 1, 1, 1, 0, 1, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0]}
shuf!{m8x2, m8x64, M, 1, 2, two, [2, 0, 0, 1, 1, 2, 0, 0, 2, 1, 1, 0, 1, 0, 1, 1, 3, 2, 0, 0, 2, 0, 1, 2, 1, 3, 0, 2, 0, 0, 3, 3, 1, 0, 2, 1, 0, 0, 0, 1, 1, 3, 0, 0, 1, 3, 1, 1, 1, 2, 0, 0, 2, 2, 3, 0, 3, 1, 0, 3, 0, 1, 0, 3]}
shuf!{m8x2, m8x64, M, 1, 2, two, [0, 2, 3, 1, 0, 2, 3, 1, 0, 2, 3, 1, 0, 2, 3, 1, 0, 2, 3, 1, 0, 2, 3, 1, 0, 2, 3, 1, 0, 2, 3, 1, 0, 2, 3, 1, 0, 2, 3, 1, 0, 2, 3, 1, 0, 2, 3, 1, 0, 2, 3, 1, 0, 2, 3, 1, 0, 2, 3, 1, 0, 2, 3, 1]}
shuf!{m8x2, m8x64, M, 1, 2, one, [0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 1, 0, 1, 0, 0, 0, 1, 0, 1, 1, 1, 1, 1, 0, 1, 0, 0, 0, 1, 1, 0, 0, 1, 1, 0, 0, 1, 1, 1, 0, 1, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 1, 0, 0, 0, 0, 0, 1, 0]}
shuf!{m8x4, m8x2, M, 1, 4, two, [7, 0]}
shuf!{m8x4, m8x2, M, 1, 4, two, [4, 3]}
shuf!{m8x4, m8x2, M, 1, 4, one, [2, 3]}
shuf!{m8x4, m8x4, M, 1, 4, two, [3, 2, 3, 0]}
shuf!{m8x4, m8x4, M, 1, 4, two, [0, 3, 2, 4]}
shuf!{m8x4, m8x4, M, 1, 4, one, [3, 0, 3, 1]}
shuf!{m8x4, m8x4, M, 1, 4, one, [2, 3, 0, 1]}
shuf!{m8x4, m8x4, M, 1, 4, two, [7, 6, 5, 4]}
shuf!{m8x4, m8x8, M, 1, 4, two, [0, 4, 6, 3, 4, 5, 0, 7]}
shuf!{m8x4, m8x8, M, 1, 4, two, [5, 4, 7, 2, 0, 3, 6, 1]}
shuf!{m8x4, m8x8, M, 1, 4, one, [1, 0, 1, 0, 1, 1, 3, 0]}
shuf!{m8x4, m8x16, M, 1, 4, two, [4, 2, 1, 1, 6, 3, 2, 3, 0, 0, 1, 4, 3, 5, 0, 0]}
shuf!{m8x4, m8x16, M, 1, 4, two, [1, 5, 3, 4, 0, 7, 6, 2, 1, 5, 3, 4, 0, 7, 6, 2]}
shuf!{m8x4, m8x16, M, 1, 4, one, [0, 3, 1, 2, 0, 1, 0, 3, 2, 3, 1, 3, 2, 2, 0, 1]}
shuf!{m8x4, m8x32, M, 1, 4, two, [0, 2, 6, 3, 6, 7, 1, 7, 0, 7, 4, 3, 0, 7, 7, 7, 7, 0, 6, 6, 3, 0, 7, 1, 3, 0, 2, 3, 5, 0, 6, 0]}
shuf!{m8x4, m8x32, M, 1, 4, two, [0, 5, 1, 2, 4, 7, 6, 3, 0, 5, 1, 2, 4, 7, 6, 3, 0, 5, 1, 2, 4, 7, 6, 3, 0, 5, 1, 2, 4, 7, 6, 3]}
shuf!{m8x4, m8x32, M, 1, 4, one, [1, 0, 1, 2, 2, 0, 1, 2, 1, 1, 1, 0, 0, 0, 2, 3, 2, 0, 1, 3, 3, 3, 1, 2, 0, 3, 1, 0, 3, 2, 1, 3]}
shuf!{m8x4, m8x64, M, 1, 4, two, [3, 1, 6, 7, 2, 1, 6, 3, 5, 0, 2, 7, 3, 4, 6, 2, 1, 1, 4, 7, 0, 2, 5, 0, 6, 5, 0, 6, 5, 4, 2, 6, 3, 2, 4, 1, 6, 2, 4, 2, 2, 5, 7, 6, 2, 3, 4, 3, 3, 5, 5, 1, 4, 1, 7, 7, 1, 2, 3, 5, 2, 4, 6, 6]}
shuf!{m8x4, m8x64, M, 1, 4, two, [0, 2, 4, 5, 6, 1, 7, 3, 0, 2, 4, 5, 6, 1, 7, 3, 0, 2, 4, 5, 6, 1, 7, 3, 0, 2, 4, 5, 6, 1, 7, 3, 0, 2, 4, 5, 6, 1, 7, 3, 0, 2, 4, 5, 6, 1, 7, 3, 0, 2, 4, 5, 6, 1, 7, 3, 0, 2, 4, 5, 6, 1, 7, 3]}
shuf!{m8x4, m8x64, M, 1, 4, one, [1, 3, 2, 2, 2, 1, 1, 3, 2, 1, 0, 2, 3, 2, 2, 1, 1, 3, 3, 2, 3, 2, 3, 2, 0, 2, 3, 2, 2, 3, 0, 1, 1, 0, 0, 1, 0, 1, 3, 1, 2, 0, 3, 0, 3, 3, 0, 2, 0, 1, 2, 2, 0, 2, 1, 1, 2, 2, 0, 0, 1, 3, 3, 1]}
shuf!{m8x8, m8x2, M, 1, 8, two, [11, 7]}
shuf!{m8x8, m8x2, M, 1, 8, two, [1, 8]}
shuf!{m8x8, m8x2, M, 1, 8, one, [4, 2]}
shuf!{m8x8, m8x4, M, 1, 8, two, [9, 0, 1, 0]}
shuf!{m8x8, m8x4, M, 1, 8, two, [10, 4, 8, 9]}
shuf!{m8x8, m8x4, M, 1, 8, one, [7, 3, 1, 0]}
shuf!{m8x8, m8x8, M, 1, 8, two, [11, 1, 15, 13, 13, 7, 1, 13]}
shuf!{m8x8, m8x8, M, 1, 8, two, [15, 1, 7, 13, 9, 5, 11, 10]}
shuf!{m8x8, m8x8, M, 1, 8, one, [1, 7, 3, 1, 4, 1, 7, 7]}
shuf!{m8x8, m8x8, M, 1, 8, one, [1, 3, 6, 4, 5, 7, 0, 2]}
shuf!{m8x8, m8x8, M, 1, 8, two, [15, 14, 13, 12, 11, 10, 9, 8]}
shuf!{m8x8, m8x16, M, 1, 8, two, [10, 14, 11, 15, 0, 11, 13, 1, 10, 7, 5, 2, 14, 1, 4, 4]}
shuf!{m8x8, m8x16, M, 1, 8, two, [6, 13, 9, 0, 4, 3, 14, 2, 12, 15, 11, 10, 5, 8, 1, 7]}
shuf!{m8x8, m8x16, M, 1, 8, one, [6, 0, 5, 0, 1, 7, 5, 5, 1, 3, 2, 1, 0, 4, 6, 4]}
shuf!{m8x8, m8x32, M, 1, 8, two, [2, 1, 13, 11, 0, 3, 0, 15, 3, 1, 13, 0, 8, 14, 8, 13, 8, 12, 11, 8, 14, 15, 13, 6, 0, 2, 4, 5, 11, 10, 4, 1]}
shuf!{m8x8, m8x32, M, 1, 8, two, [3, 10, 4, 14, 11, 13, 2, 6, 8, 5, 1, 9, 7, 12, 15, 0, 3, 10, 4, 14, 11, 13, 2, 6, 8, 5, 1, 9, 7, 12, 15, 0]}
shuf!{m8x8, m8x32, M, 1, 8, one, [5, 7, 6, 6, 7, 5, 6, 3, 0, 2, 4, 7, 0, 3, 6, 6, 3, 7, 7, 3, 4, 0, 6, 7, 4, 5, 4, 2, 4, 5, 0, 6]}
shuf!{m8x8, m8x64, M, 1, 8, two, [11, 2, 7, 2, 1, 7, 11, 12, 14, 9, 10, 12, 11, 11, 6, 7, 2, 4, 6, 6, 5, 12, 10, 1, 7, 7, 10, 2, 1, 15, 2, 1, 12, 2, 3, 3, 10, 6, 6, 13, 14, 8, 5, 5, 13, 15, 1, 9, 7, 7, 11, 3, 7, 8, 5, 12, 10, 4, 6, 14, 15, 3, 6, 14]}
shuf!{m8x8, m8x64, M, 1, 8, two, [15, 5, 3, 9, 2, 0, 14, 6, 4, 1, 7, 13, 8, 11, 10, 12, 15, 5, 3, 9, 2, 0, 14, 6, 4, 1, 7, 13, 8, 11, 10, 12, 15, 5, 3, 9, 2, 0, 14, 6, 4, 1, 7, 13, 8, 11, 10, 12, 15, 5, 3, 9, 2, 0, 14, 6, 4, 1, 7, 13, 8, 11, 10, 12]}
shuf!{m8x8, m8x64, M, 1, 8, one, [1, 7, 2, 6, 0, 2, 1, 5, 6, 4, 2, 5, 0, 2, 5, 1, 4, 3, 0, 5, 7, 3, 4, 4, 6, 2, 5, 1, 0, 4, 6, 5, 5, 0, 2, 3, 0, 3, 1, 0, 4, 5, 2, 2, 3, 6, 0, 2, 0, 4, 1, 6, 6, 3, 3, 6, 7, 1, 5, 1, 7, 4, 0, 5]}
shuf!{m8x16, m8x2, M, 1, 16, two, [3, 25]}
shuf!{m8x16, m8x2, M, 1, 16, two, [19, 13]}
shuf!{m8x16, m8x2, M, 1, 16, one, [13, 4]}
shuf!{m8x16, m8x4, M, 1, 16, two, [20, 9, 16, 27]}
shuf!{m8x16, m8x4, M, 1, 16, two, [12, 30, 14, 3]}
shuf!{m8x16, m8x4, M, 1, 16, one, [9, 6, 5, 8]}
shuf!{m8x16, m8x8, M, 1, 16, two, [20, 29, 15, 25, 5, 4, 23, 19]}
shuf!{m8x16, m8x8, M, 1, 16, two, [30, 1, 22, 9, 14, 11, 18, 15]}
shuf!{m8x16, m8x8, M, 1, 16, one, [12, 10, 6, 5, 0, 9, 14, 5]}
shuf!{m8x16, m8x16, M, 1, 16, two, [24, 29, 14, 0, 1, 11, 3, 2, 22, 30, 12, 0, 15, 1, 18, 21]}
shuf!{m8x16, m8x16, M, 1, 16, two, [28, 6, 23, 3, 4, 22, 30, 13, 10, 15, 21, 31, 27, 25, 7, 20]}
shuf!{m8x16, m8x16, M, 1, 16, one, [15, 6, 14, 0, 1, 15, 9, 11, 0, 14, 10, 13, 6, 10, 12, 1]}
shuf!{m8x16, m8x16, M, 1, 16, one, [8, 2, 0, 11, 13, 4, 9, 12, 10, 14, 3, 1, 5, 15, 6, 7]}
shuf!{m8x16, m8x16, M, 1, 16, two, [31, 30, 29, 28, 27, 26, 25, 24, 23, 22, 21, 20, 19, 18, 17, 16]}
shuf!{m8x16, m8x32, M, 1, 16, two, [13, 12, 25, 24, 0, 11, 5, 17, 24, 21, 25, 22, 21, 12, 15, 26, 1, 21, 6, 1, 21, 17, 7, 4, 1, 15, 20, 3, 5, 3, 24, 25]}
shuf!{m8x16, m8x32, M, 1, 16, two, [26, 9, 10, 28, 29, 6, 11, 1, 31, 8, 13, 15, 12, 5, 2, 21, 20, 0, 7, 16, 24, 22, 25, 19, 18, 30, 27, 3, 17, 23, 14, 4]}
shuf!{m8x16, m8x32, M, 1, 16, one, [12, 15, 12, 7, 6, 12, 5, 11, 8, 5, 1, 4, 15, 5, 5, 7, 9, 1, 0, 1, 15, 13, 15, 6, 10, 8, 10, 15, 4, 4, 5, 3]}
shuf!{m8x16, m8x64, M, 1, 16, two, [14, 22, 15, 9, 3, 10, 21, 1, 0, 18, 17, 6, 14, 31, 12, 6, 10, 11, 3, 19, 6, 7, 13, 15, 18, 4, 12, 11, 12, 18, 1, 29, 30, 6, 28, 24, 13, 18, 22, 21, 15, 26, 20, 4, 17, 5, 1, 18, 13, 29, 21, 24, 31, 24, 28, 7, 2, 31, 16, 8, 1, 18, 31, 27]}
shuf!{m8x16, m8x64, M, 1, 16, two, [0, 24, 29, 3, 21, 30, 2, 25, 18, 8, 22, 20, 9, 12, 26, 17, 5, 13, 10, 27, 6, 19, 4, 15, 23, 31, 28, 11, 16, 1, 14, 7, 0, 24, 29, 3, 21, 30, 2, 25, 18, 8, 22, 20, 9, 12, 26, 17, 5, 13, 10, 27, 6, 19, 4, 15, 23, 31, 28, 11, 16, 1, 14, 7]}
shuf!{m8x16, m8x64, M, 1, 16, one, [0, 12, 7, 11, 7, 13, 1, 2, 12, 11, 3, 9, 14, 9, 10, 14, 1, 10, 13, 4, 2, 10, 5, 5, 11, 11, 2, 8, 1, 14, 11, 1, 4, 4, 13, 3, 1, 14, 0, 15, 8, 14, 6, 13, 4, 10, 4, 14, 8, 13, 1, 10, 13, 11, 14, 4, 15, 3, 6, 6, 3, 7, 10, 2]}
shuf!{m8x32, m8x2, M, 1, 32, two, [3, 11]}
shuf!{m8x32, m8x2, M, 1, 32, two, [6, 15]}
shuf!{m8x32, m8x2, M, 1, 32, one, [1, 1]}
shuf!{m8x32, m8x4, M, 1, 32, two, [46, 42, 63, 58]}
shuf!{m8x32, m8x4, M, 1, 32, two, [45, 49, 35, 50]}
shuf!{m8x32, m8x4, M, 1, 32, one, [11, 13, 16, 19]}
shuf!{m8x32, m8x8, M, 1, 32, two, [3, 60, 36, 31, 14, 34, 58, 29]}
shuf!{m8x32, m8x8, M, 1, 32, two, [61, 56, 50, 49, 0, 41, 15, 59]}
shuf!{m8x32, m8x8, M, 1, 32, one, [0, 15, 28, 20, 19, 8, 29, 19]}
shuf!{m8x32, m8x16, M, 1, 32, two, [46, 17, 55, 28, 43, 35, 47, 31, 28, 31, 11, 45, 15, 1, 61, 52]}
shuf!{m8x32, m8x16, M, 1, 32, two, [30, 20, 27, 42, 17, 41, 56, 1, 22, 2, 45, 0, 37, 36, 3, 11]}
shuf!{m8x32, m8x16, M, 1, 32, one, [13, 28, 28, 15, 31, 14, 24, 17, 27, 15, 16, 21, 11, 26, 4, 20]}
shuf!{m8x32, m8x32, M, 1, 32, two, [28, 60, 40, 34, 2, 47, 59, 4, 46, 28, 31, 62, 24, 43, 2, 17, 46, 12, 35, 11, 42, 24, 5, 59, 50, 1, 26, 28, 56, 48, 57, 2]}
shuf!{m8x32, m8x32, M, 1, 32, two, [34, 8, 20, 3, 43, 50, 12, 58, 47, 45, 62, 10, 48, 32, 39, 61, 9, 23, 31, 57, 53, 52, 11, 56, 1, 55, 33, 27, 6, 38, 30, 13]}
shuf!{m8x32, m8x32, M, 1, 32, one, [19, 7, 5, 23, 18, 19, 19, 14, 12, 12, 22, 9, 9, 2, 16, 25, 22, 23, 3, 19, 12, 2, 12, 11, 31, 29, 14, 13, 31, 30, 16, 10]}
shuf!{m8x32, m8x32, M, 1, 32, one, [0, 24, 17, 27, 15, 4, 16, 22, 5, 7, 3, 28, 1, 19, 18, 29, 25, 14, 21, 12, 31, 30, 13, 10, 9, 6, 8, 20, 11, 23, 26, 2]}
shuf!{m8x32, m8x32, M, 1, 32, two, [63, 62, 61, 60, 59, 58, 57, 56, 55, 54, 53, 52, 51, 50, 49, 48, 47, 46, 45, 44, 43, 42, 41, 40, 39, 38, 37, 36, 35, 34, 33, 32]}
shuf!{m8x32, m8x64, M, 1, 32, two, [21, 42, 55, 55, 49, 3, 22, 32, 45, 16, 39, 22, 14, 51, 59, 14, 18, 19, 56, 51, 25, 61, 16, 39, 13, 45, 46, 58, 7, 22, 48, 53, 47, 62, 55, 47, 32, 19, 5, 20, 0, 16, 45, 24, 38, 48, 56, 21, 37, 6, 10, 55, 59, 41, 59, 61, 3, 11, 5, 5, 16, 47, 62, 17]}
shuf!{m8x32, m8x64, M, 1, 32, two, [13, 55, 16, 33, 48, 39, 35, 19, 17, 61, 6, 0, 57, 22, 7, 14, 4, 11, 29, 46, 10, 15, 63, 49, 3, 36, 53, 42, 34, 59, 1, 51, 58, 56, 20, 40, 5, 30, 24, 45, 27, 43, 23, 8, 47, 62, 44, 28, 18, 32, 38, 37, 12, 25, 60, 54, 2, 31, 26, 41, 52, 50, 21, 9]}
shuf!{m8x32, m8x64, M, 1, 32, one, [21, 24, 22, 12, 15, 12, 11, 12, 30, 6, 1, 24, 17, 24, 21, 7, 8, 10, 3, 12, 21, 8, 12, 26, 6, 1, 1, 23, 6, 1, 23, 22, 14, 8, 28, 3, 19, 1, 23, 10, 5, 24, 1, 10, 11, 0, 0, 14, 6, 7, 8, 17, 0, 13, 9, 29, 28, 23, 20, 20, 22, 12, 16, 31]}
shuf!{m8x64, m8x2, M, 1, 64, two, [69, 39]}
shuf!{m8x64, m8x2, M, 1, 64, two, [25, 43]}
shuf!{m8x64, m8x2, M, 1, 64, one, [35, 58]}
shuf!{m8x64, m8x4, M, 1, 64, two, [32, 33, 24, 49]}
shuf!{m8x64, m8x4, M, 1, 64, two, [105, 62, 37, 58]}
shuf!{m8x64, m8x4, M, 1, 64, one, [38, 48, 61, 36]}
shuf!{m8x64, m8x8, M, 1, 64, two, [32, 111, 112, 81, 57, 79, 112, 57]}
shuf!{m8x64, m8x8, M, 1, 64, two, [30, 59, 23, 118, 80, 76, 5, 61]}
shuf!{m8x64, m8x8, M, 1, 64, one, [41, 6, 51, 7, 40, 58, 28, 11]}
shuf!{m8x64, m8x16, M, 1, 64, two, [109, 29, 96, 83, 36, 15, 66, 46, 87, 123, 104, 122, 123, 18, 7, 37]}
shuf!{m8x64, m8x16, M, 1, 64, two, [78, 73, 25, 51, 112, 37, 65, 71, 47, 40, 124, 60, 2, 10, 95, 15]}
shuf!{m8x64, m8x16, M, 1, 64, one, [10, 19, 51, 37, 23, 17, 53, 54, 0, 24, 37, 62, 0, 54, 43, 49]}
shuf!{m8x64, m8x32, M, 1, 64, two, [120, 118, 119, 9, 75, 58, 67, 31, 93, 79, 75, 48, 100, 63, 18, 32, 0, 112, 49, 20, 51, 127, 123, 41, 109, 46, 58, 114, 37, 46, 3, 82]}
shuf!{m8x64, m8x32, M, 1, 64, two, [23, 74, 39, 98, 45, 12, 124, 34, 31, 42, 2, 91, 35, 69, 13, 61, 80, 20, 55, 87, 47, 103, 104, 84, 70, 1, 99, 94, 93, 120, 113, 33]}
shuf!{m8x64, m8x32, M, 1, 64, one, [11, 4, 14, 49, 6, 33, 42, 8, 30, 32, 23, 20, 5, 24, 11, 30, 20, 21, 3, 34, 50, 60, 25, 32, 42, 41, 21, 46, 52, 18, 30, 32]}
shuf!{m8x64, m8x64, M, 1, 64, two, [53, 116, 51, 88, 2, 45, 74, 41, 31, 77, 61, 27, 24, 88, 45, 72, 18, 90, 10, 34, 23, 30, 54, 64, 75, 12, 69, 10, 91, 26, 84, 6, 58, 75, 123, 5, 67, 69, 98, 74, 33, 122, 17, 84, 119, 58, 36, 18, 62, 36, 86, 99, 21, 41, 127, 25, 59, 17, 94, 43, 49, 29, 74, 90]}
shuf!{m8x64, m8x64, M, 1, 64, two, [105, 108, 80, 104, 17, 55, 5, 82, 19, 86, 74, 2, 47, 26, 94, 111, 76, 4, 63, 0, 45, 23, 60, 16, 125, 20, 34, 73, 117, 46, 36, 40, 67, 84, 123, 29, 58, 13, 59, 3, 52, 42, 65, 11, 41, 92, 51, 72, 61, 32, 83, 6, 87, 124, 70, 48, 38, 28, 30, 68, 88, 89, 93, 71]}
shuf!{m8x64, m8x64, M, 1, 64, one, [9, 3, 20, 55, 61, 24, 53, 27, 23, 21, 16, 46, 28, 60, 51, 63, 37, 3, 7, 54, 12, 51, 38, 32, 41, 30, 15, 15, 31, 53, 23, 45, 26, 5, 45, 60, 38, 38, 23, 40, 21, 10, 32, 7, 50, 23, 2, 20, 8, 21, 32, 10, 39, 49, 24, 40, 60, 14, 48, 50, 24, 55, 59, 20]}
shuf!{m8x64, m8x64, M, 1, 64, one, [40, 57, 47, 45, 33, 34, 13, 18, 19, 10, 24, 53, 36, 60, 3, 37, 25, 26, 59, 20, 58, 41, 39, 52, 62, 38, 28, 30, 48, 5, 4, 15, 7, 27, 42, 61, 6, 14, 31, 21, 29, 51, 44, 2, 35, 49, 56, 16, 43, 22, 23, 12, 55, 0, 54, 1, 17, 9, 11, 8, 50, 32, 46, 63]}
shuf!{m8x64, m8x64, M, 1, 64, two, [127, 126, 125, 124, 123, 122, 121, 120, 119, 118, 117, 116, 115, 114, 113, 112, 111, 110, 109, 108, 107, 106, 105, 104, 103, 102, 101, 100, 99, 98, 97, 96, 95, 94, 93, 92, 91, 90, 89, 88, 87, 86, 85, 84, 83, 82, 81, 80, 79, 78, 77, 76, 75, 74, 73, 72, 71, 70, 69, 68, 67, 66, 65, 64]}
shuf!{m16x2, m16x2, M, 2, 2, two, [2, 1]}
shuf!{m16x2, m16x2, M, 2, 2, two, [1, 2]}
shuf!{m16x2, m16x2, M, 2, 2, one, [0, 0]}
shuf!{m16x2, m16x2, M, 2, 2, one, [1, 0]}
shuf!{m16x2, m16x2, M, 2, 2, two, [3, 2]}
shuf!{m16x2, m16x4, M, 2, 2, two, [0, 3, 3, 2]}
shuf!{m16x2, m16x4, M, 2, 2, two, [2, 1, 3, 0]}
shuf!{m16x2, m16x4, M, 2, 2, one, [1, 1, 0, 0]}
shuf!{m16x2, m16x8, M, 2, 2, two, [0, 3, 3, 1, 2, 1, 2, 3]}
shuf!{m16x2, m16x8, M, 2, 2, two, [2, 3, 0, 1, 2, 3, 0, 1]}
shuf!{m16x2, m16x8, M, 2, 2, one, [1, 0, 0, 0, 1, 1, 1, 1]}
shuf!{m16x2, m16x16, M, 2, 2, two, [0, 2, 0, 2, 0, 2, 2, 3, 0, 2, 0, 2, 2, 3, 1, 0]}
shuf!{m16x2, m16x16, M, 2, 2, two, [0, 2, 3, 1, 0, 2, 3, 1, 0, 2, 3, 1, 0, 2, 3, 1]}
shuf!{m16x2, m16x16, M, 2, 2, one, [0, 1, 1, 1, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0]}
shuf!{m16x2, m16x32, M, 2, 2, two, [0, 1, 3, 0, 2, 1, 2, 2, 0, 2, 1, 0, 1, 0, 0, 0, 3, 0, 1, 0, 0, 3, 2, 2, 2, 1, 2, 0, 0, 1, 2, 2]}
shuf!{m16x2, m16x32, M, 2, 2, two, [0, 2, 3, 1, 0, 2, 3, 1, 0, 2, 3, 1, 0, 2, 3, 1, 0, 2, 3, 1, 0, 2, 3, 1, 0, 2, 3, 1, 0, 2, 3, 1]}
shuf!{m16x2, m16x32, M, 2, 2, one, [0, 1, 1, 0, 1, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 1, 0, 0, 0, 1, 0, 1, 0, 1, 1, 0, 0, 0, 1, 0, 0]}
shuf!{m16x4, m16x2, M, 2, 4, two, [3, 4]}
shuf!{m16x4, m16x2, M, 2, 4, two, [4, 0]}
shuf!{m16x4, m16x2, M, 2, 4, one, [3, 1]}
shuf!{m16x4, m16x4, M, 2, 4, two, [5, 4, 2, 1]}
shuf!{m16x4, m16x4, M, 2, 4, two, [2, 4, 6, 7]}
shuf!{m16x4, m16x4, M, 2, 4, one, [0, 3, 0, 2]}
shuf!{m16x4, m16x4, M, 2, 4, one, [1, 2, 3, 0]}
shuf!{m16x4, m16x4, M, 2, 4, two, [7, 6, 5, 4]}
shuf!{m16x4, m16x8, M, 2, 4, two, [2, 4, 4, 4, 7, 5, 0, 0]}
shuf!{m16x4, m16x8, M, 2, 4, two, [0, 6, 1, 4, 7, 3, 5, 2]}
shuf!{m16x4, m16x8, M, 2, 4, one, [0, 1, 0, 3, 2, 0, 0, 0]}
shuf!{m16x4, m16x16, M, 2, 4, two, [1, 5, 7, 2, 4, 3, 6, 2, 5, 1, 5, 6, 1, 7, 0, 3]}
shuf!{m16x4, m16x16, M, 2, 4, two, [7, 2, 0, 4, 3, 5, 6, 1, 7, 2, 0, 4, 3, 5, 6, 1]}
shuf!{m16x4, m16x16, M, 2, 4, one, [3, 3, 0, 2, 2, 3, 3, 3, 2, 1, 3, 1, 1, 3, 2, 0]}
shuf!{m16x4, m16x32, M, 2, 4, two, [7, 0, 5, 3, 7, 3, 6, 1, 6, 2, 5, 1, 0, 5, 0, 1, 6, 5, 5, 6, 0, 2, 7, 0, 7, 1, 5, 7, 1, 1, 4, 5]}
shuf!{m16x4, m16x32, M, 2, 4, two, [2, 1, 6, 7, 0, 3, 5, 4, 2, 1, 6, 7, 0, 3, 5, 4, 2, 1, 6, 7, 0, 3, 5, 4, 2, 1, 6, 7, 0, 3, 5, 4]}
shuf!{m16x4, m16x32, M, 2, 4, one, [0, 3, 2, 2, 1, 1, 2, 1, 2, 1, 3, 0, 2, 1, 3, 2, 2, 1, 1, 1, 1, 1, 2, 0, 2, 3, 2, 1, 3, 3, 1, 2]}
shuf!{m16x8, m16x2, M, 2, 8, two, [4, 1]}
shuf!{m16x8, m16x2, M, 2, 8, two, [3, 9]}
shuf!{m16x8, m16x2, M, 2, 8, one, [3, 7]}
shuf!{m16x8, m16x4, M, 2, 8, two, [14, 11, 7, 10]}
shuf!{m16x8, m16x4, M, 2, 8, two, [14, 1, 13, 12]}
shuf!{m16x8, m16x4, M, 2, 8, one, [0, 5, 3, 4]}
shuf!{m16x8, m16x8, M, 2, 8, two, [15, 14, 12, 13, 0, 13, 11, 15]}
shuf!{m16x8, m16x8, M, 2, 8, two, [3, 6, 7, 13, 4, 1, 5, 0]}
shuf!{m16x8, m16x8, M, 2, 8, one, [0, 3, 1, 1, 4, 2, 4, 7]}
shuf!{m16x8, m16x8, M, 2, 8, one, [0, 6, 4, 1, 5, 7, 3, 2]}
shuf!{m16x8, m16x8, M, 2, 8, two, [15, 14, 13, 12, 11, 10, 9, 8]}
shuf!{m16x8, m16x16, M, 2, 8, two, [10, 9, 14, 2, 10, 12, 15, 9, 6, 10, 2, 9, 0, 2, 0, 9]}
shuf!{m16x8, m16x16, M, 2, 8, two, [6, 1, 7, 11, 8, 10, 13, 0, 12, 14, 3, 15, 4, 2, 5, 9]}
shuf!{m16x8, m16x16, M, 2, 8, one, [6, 5, 2, 3, 6, 7, 6, 0, 1, 3, 4, 3, 6, 4, 0, 4]}
shuf!{m16x8, m16x32, M, 2, 8, two, [1, 0, 13, 14, 0, 6, 9, 11, 15, 2, 14, 4, 15, 3, 14, 11, 3, 11, 2, 12, 1, 4, 6, 11, 6, 7, 2, 15, 2, 3, 6, 10]}
shuf!{m16x8, m16x32, M, 2, 8, two, [5, 4, 9, 10, 6, 2, 11, 14, 7, 3, 1, 13, 15, 12, 8, 0, 5, 4, 9, 10, 6, 2, 11, 14, 7, 3, 1, 13, 15, 12, 8, 0]}
shuf!{m16x8, m16x32, M, 2, 8, one, [4, 5, 0, 4, 1, 3, 2, 5, 3, 3, 4, 3, 0, 7, 0, 1, 4, 2, 1, 5, 3, 0, 4, 7, 2, 0, 0, 3, 4, 2, 4, 6]}
shuf!{m16x16, m16x2, M, 2, 16, two, [30, 19]}
shuf!{m16x16, m16x2, M, 2, 16, two, [26, 25]}
shuf!{m16x16, m16x2, M, 2, 16, one, [12, 4]}
shuf!{m16x16, m16x4, M, 2, 16, two, [29, 25, 2, 14]}
shuf!{m16x16, m16x4, M, 2, 16, two, [30, 11, 16, 3]}
shuf!{m16x16, m16x4, M, 2, 16, one, [14, 3, 2, 0]}
shuf!{m16x16, m16x8, M, 2, 16, two, [25, 7, 23, 11, 29, 0, 14, 17]}
shuf!{m16x16, m16x8, M, 2, 16, two, [22, 3, 8, 27, 23, 5, 6, 7]}
shuf!{m16x16, m16x8, M, 2, 16, one, [14, 9, 15, 8, 12, 12, 7, 1]}
shuf!{m16x16, m16x16, M, 2, 16, two, [22, 4, 0, 31, 5, 13, 28, 8, 22, 9, 13, 31, 7, 11, 24, 16]}
shuf!{m16x16, m16x16, M, 2, 16, two, [6, 24, 18, 10, 3, 20, 2, 0, 14, 23, 25, 26, 19, 16, 30, 13]}
shuf!{m16x16, m16x16, M, 2, 16, one, [15, 5, 9, 1, 9, 15, 8, 5, 5, 13, 0, 15, 15, 4, 14, 13]}
shuf!{m16x16, m16x16, M, 2, 16, one, [2, 5, 4, 9, 13, 11, 10, 8, 12, 14, 3, 1, 0, 15, 6, 7]}
shuf!{m16x16, m16x16, M, 2, 16, two, [31, 30, 29, 28, 27, 26, 25, 24, 23, 22, 21, 20, 19, 18, 17, 16]}
shuf!{m16x16, m16x32, M, 2, 16, two, [8, 7, 21, 24, 4, 9, 10, 27, 16, 19, 4, 23, 23, 13, 19, 5, 26, 20, 14, 2, 7, 9, 26, 14, 3, 2, 7, 19, 18, 28, 27, 3]}
shuf!{m16x16, m16x32, M, 2, 16, two, [20, 31, 11, 5, 28, 1, 7, 18, 10, 30, 22, 15, 0, 6, 8, 27, 19, 13, 29, 4, 17, 24, 2, 26, 9, 16, 14, 21, 3, 12, 23, 25]}
shuf!{m16x16, m16x32, M, 2, 16, one, [7, 6, 7, 15, 10, 0, 4, 2, 6, 8, 4, 12, 0, 8, 8, 3, 15, 5, 6, 14, 15, 5, 1, 3, 10, 3, 11, 10, 5, 9, 7, 9]}
shuf!{m16x32, m16x2, M, 2, 32, two, [20, 48]}
shuf!{m16x32, m16x2, M, 2, 32, two, [30, 18]}
shuf!{m16x32, m16x2, M, 2, 32, one, [17, 11]}
shuf!{m16x32, m16x4, M, 2, 32, two, [48, 41, 28, 20]}
shuf!{m16x32, m16x4, M, 2, 32, two, [60, 25, 42, 0]}
shuf!{m16x32, m16x4, M, 2, 32, one, [28, 11, 10, 31]}
shuf!{m16x32, m16x8, M, 2, 32, two, [45, 12, 20, 31, 18, 50, 18, 58]}
shuf!{m16x32, m16x8, M, 2, 32, two, [43, 24, 52, 18, 26, 42, 57, 40]}
shuf!{m16x32, m16x8, M, 2, 32, one, [8, 2, 11, 13, 22, 6, 16, 17]}
shuf!{m16x32, m16x16, M, 2, 32, two, [50, 39, 28, 52, 53, 24, 2, 2, 61, 57, 25, 6, 0, 43, 29, 61]}
shuf!{m16x32, m16x16, M, 2, 32, two, [10, 46, 20, 23, 51, 13, 12, 29, 19, 26, 37, 60, 50, 45, 1, 14]}
shuf!{m16x32, m16x16, M, 2, 32, one, [9, 19, 19, 7, 5, 14, 15, 21, 3, 14, 10, 4, 29, 30, 12, 19]}
shuf!{m16x32, m16x32, M, 2, 32, two, [2, 46, 41, 37, 31, 54, 42, 4, 27, 31, 38, 32, 18, 52, 14, 17, 6, 6, 51, 29, 1, 49, 40, 38, 14, 53, 40, 21, 61, 62, 56, 16]}
shuf!{m16x32, m16x32, M, 2, 32, two, [59, 60, 42, 25, 33, 63, 36, 51, 29, 32, 18, 50, 26, 30, 1, 10, 21, 5, 4, 45, 8, 53, 39, 27, 12, 13, 7, 2, 44, 15, 47, 34]}
shuf!{m16x32, m16x32, M, 2, 32, one, [25, 23, 21, 23, 15, 15, 14, 9, 30, 15, 28, 11, 15, 26, 8, 6, 23, 19, 12, 2, 8, 0, 9, 6, 8, 0, 18, 4, 7, 12, 21, 30]}
shuf!{m16x32, m16x32, M, 2, 32, one, [19, 21, 0, 6, 25, 27, 1, 12, 16, 31, 11, 15, 18, 13, 17, 26, 30, 20, 22, 10, 2, 23, 7, 9, 3, 24, 4, 28, 5, 29, 14, 8]}
shuf!{m16x32, m16x32, M, 2, 32, two, [63, 62, 61, 60, 59, 58, 57, 56, 55, 54, 53, 52, 51, 50, 49, 48, 47, 46, 45, 44, 43, 42, 41, 40, 39, 38, 37, 36, 35, 34, 33, 32]}
shuf!{m32x2, m32x2, M, 4, 2, two, [0, 1]}
shuf!{m32x2, m32x2, M, 4, 2, two, [0, 1]}
shuf!{m32x2, m32x2, M, 4, 2, one, [1, 0]}
shuf!{m32x2, m32x2, M, 4, 2, one, [1, 0]}
shuf!{m32x2, m32x2, M, 4, 2, two, [3, 2]}
shuf!{m32x2, m32x4, M, 4, 2, two, [3, 1, 1, 0]}
shuf!{m32x2, m32x4, M, 4, 2, two, [0, 2, 1, 3]}
shuf!{m32x2, m32x4, M, 4, 2, one, [0, 0, 0, 0]}
shuf!{m32x2, m32x8, M, 4, 2, two, [1, 1, 0, 3, 3, 1, 3, 1]}
shuf!{m32x2, m32x8, M, 4, 2, two, [3, 0, 2, 1, 3, 0, 2, 1]}
shuf!{m32x2, m32x8, M, 4, 2, one, [1, 0, 0, 0, 1, 1, 1, 0]}
shuf!{m32x2, m32x16, M, 4, 2, two, [3, 1, 2, 1, 2, 3, 2, 1, 1, 0, 2, 1, 1, 0, 1, 0]}
shuf!{m32x2, m32x16, M, 4, 2, two, [0, 2, 3, 1, 0, 2, 3, 1, 0, 2, 3, 1, 0, 2, 3, 1]}
shuf!{m32x2, m32x16, M, 4, 2, one, [0, 1, 0, 0, 1, 0, 1, 0, 0, 0, 1, 1, 1, 0, 0, 1]}
shuf!{m32x4, m32x2, M, 4, 4, two, [3, 2]}
shuf!{m32x4, m32x2, M, 4, 4, two, [5, 3]}
shuf!{m32x4, m32x2, M, 4, 4, one, [0, 1]}
shuf!{m32x4, m32x4, M, 4, 4, two, [6, 7, 0, 1]}
shuf!{m32x4, m32x4, M, 4, 4, two, [4, 5, 0, 1]}
shuf!{m32x4, m32x4, M, 4, 4, one, [2, 1, 1, 2]}
shuf!{m32x4, m32x4, M, 4, 4, one, [0, 2, 3, 1]}
shuf!{m32x4, m32x4, M, 4, 4, two, [7, 6, 5, 4]}
shuf!{m32x4, m32x8, M, 4, 4, two, [7, 0, 6, 3, 3, 6, 3, 1]}
shuf!{m32x4, m32x8, M, 4, 4, two, [7, 4, 6, 0, 2, 3, 5, 1]}
shuf!{m32x4, m32x8, M, 4, 4, one, [1, 2, 1, 1, 3, 0, 1, 3]}
shuf!{m32x4, m32x16, M, 4, 4, two, [0, 0, 5, 5, 5, 4, 4, 1, 2, 1, 4, 4, 5, 4, 3, 0]}
shuf!{m32x4, m32x16, M, 4, 4, two, [6, 5, 2, 3, 1, 4, 0, 7, 6, 5, 2, 3, 1, 4, 0, 7]}
shuf!{m32x4, m32x16, M, 4, 4, one, [0, 0, 0, 2, 0, 2, 0, 1, 2, 0, 3, 0, 1, 3, 1, 1]}
shuf!{m32x8, m32x2, M, 4, 8, two, [0, 11]}
shuf!{m32x8, m32x2, M, 4, 8, two, [9, 2]}
shuf!{m32x8, m32x2, M, 4, 8, one, [6, 7]}
shuf!{m32x8, m32x4, M, 4, 8, two, [2, 11, 8, 7]}
shuf!{m32x8, m32x4, M, 4, 8, two, [12, 8, 5, 4]}
shuf!{m32x8, m32x4, M, 4, 8, one, [3, 1, 7, 1]}
shuf!{m32x8, m32x8, M, 4, 8, two, [12, 10, 2, 10, 5, 5, 2, 2]}
shuf!{m32x8, m32x8, M, 4, 8, two, [8, 15, 3, 7, 5, 0, 6, 14]}
shuf!{m32x8, m32x8, M, 4, 8, one, [3, 0, 3, 5, 2, 0, 1, 4]}
shuf!{m32x8, m32x8, M, 4, 8, one, [4, 2, 6, 3, 7, 5, 0, 1]}
shuf!{m32x8, m32x8, M, 4, 8, two, [15, 14, 13, 12, 11, 10, 9, 8]}
shuf!{m32x8, m32x16, M, 4, 8, two, [2, 7, 6, 8, 13, 6, 0, 14, 6, 5, 13, 12, 4, 10, 6, 10]}
shuf!{m32x8, m32x16, M, 4, 8, two, [11, 2, 7, 15, 0, 12, 8, 3, 1, 14, 5, 4, 10, 6, 13, 9]}
shuf!{m32x8, m32x16, M, 4, 8, one, [5, 4, 5, 5, 0, 6, 1, 0, 1, 1, 6, 4, 2, 0, 1, 3]}
shuf!{m32x16, m32x2, M, 4, 16, two, [5, 28]}
shuf!{m32x16, m32x2, M, 4, 16, two, [9, 28]}
shuf!{m32x16, m32x2, M, 4, 16, one, [1, 9]}
shuf!{m32x16, m32x4, M, 4, 16, two, [23, 6, 2, 5]}
shuf!{m32x16, m32x4, M, 4, 16, two, [20, 1, 13, 7]}
shuf!{m32x16, m32x4, M, 4, 16, one, [2, 4, 5, 13]}
shuf!{m32x16, m32x8, M, 4, 16, two, [8, 7, 19, 8, 6, 26, 17, 22]}
shuf!{m32x16, m32x8, M, 4, 16, two, [2, 3, 8, 24, 31, 30, 12, 14]}
shuf!{m32x16, m32x8, M, 4, 16, one, [4, 10, 4, 6, 3, 8, 11, 15]}
shuf!{m32x16, m32x16, M, 4, 16, two, [0, 14, 1, 0, 16, 24, 25, 12, 31, 10, 21, 20, 26, 2, 24, 18]}
shuf!{m32x16, m32x16, M, 4, 16, two, [16, 24, 15, 8, 13, 22, 29, 3, 18, 2, 9, 7, 0, 1, 10, 14]}
shuf!{m32x16, m32x16, M, 4, 16, one, [1, 14, 7, 5, 12, 10, 9, 11, 11, 1, 13, 3, 15, 3, 8, 7]}
shuf!{m32x16, m32x16, M, 4, 16, one, [1, 8, 4, 9, 6, 10, 2, 5, 13, 12, 11, 7, 15, 14, 3, 0]}
shuf!{m32x16, m32x16, M, 4, 16, two, [31, 30, 29, 28, 27, 26, 25, 24, 23, 22, 21, 20, 19, 18, 17, 16]}
shuf!{m64x2, m64x2, M, 8, 2, two, [3, 3]}
shuf!{m64x2, m64x2, M, 8, 2, two, [0, 1]}
shuf!{m64x2, m64x2, M, 8, 2, one, [1, 0]}
shuf!{m64x2, m64x2, M, 8, 2, one, [0, 1]}
shuf!{m64x2, m64x2, M, 8, 2, two, [3, 2]}
shuf!{m64x2, m64x4, M, 8, 2, two, [0, 0, 1, 0]}
shuf!{m64x2, m64x4, M, 8, 2, two, [0, 3, 2, 1]}
shuf!{m64x2, m64x4, M, 8, 2, one, [0, 0, 0, 1]}
shuf!{m64x2, m64x8, M, 8, 2, two, [2, 2, 0, 2, 2, 3, 2, 1]}
shuf!{m64x2, m64x8, M, 8, 2, two, [1, 3, 2, 0, 1, 3, 2, 0]}
shuf!{m64x2, m64x8, M, 8, 2, one, [0, 1, 0, 0, 1, 1, 1, 1]}
shuf!{m64x4, m64x2, M, 8, 4, two, [1, 6]}
shuf!{m64x4, m64x2, M, 8, 4, two, [4, 1]}
shuf!{m64x4, m64x2, M, 8, 4, one, [0, 0]}
shuf!{m64x4, m64x4, M, 8, 4, two, [0, 3, 5, 3]}
shuf!{m64x4, m64x4, M, 8, 4, two, [0, 1, 2, 3]}
shuf!{m64x4, m64x4, M, 8, 4, one, [1, 3, 0, 2]}
shuf!{m64x4, m64x4, M, 8, 4, one, [0, 3, 1, 2]}
shuf!{m64x4, m64x4, M, 8, 4, two, [7, 6, 5, 4]}
shuf!{m64x4, m64x8, M, 8, 4, two, [4, 1, 3, 1, 7, 5, 6, 6]}
shuf!{m64x4, m64x8, M, 8, 4, two, [1, 5, 3, 6, 7, 4, 2, 0]}
shuf!{m64x4, m64x8, M, 8, 4, one, [1, 2, 3, 0, 1, 2, 1, 1]}
shuf!{m64x8, m64x2, M, 8, 8, two, [11, 2]}
shuf!{m64x8, m64x2, M, 8, 8, two, [1, 4]}
shuf!{m64x8, m64x2, M, 8, 8, one, [4, 6]}
shuf!{m64x8, m64x4, M, 8, 8, two, [0, 8, 15, 0]}
shuf!{m64x8, m64x4, M, 8, 8, two, [13, 15, 1, 10]}
shuf!{m64x8, m64x4, M, 8, 8, one, [0, 1, 5, 4]}
shuf!{m64x8, m64x8, M, 8, 8, two, [12, 0, 12, 4, 3, 3, 15, 5]}
shuf!{m64x8, m64x8, M, 8, 8, two, [3, 6, 13, 10, 14, 7, 15, 11]}
shuf!{m64x8, m64x8, M, 8, 8, one, [4, 4, 3, 0, 7, 1, 1, 1]}
shuf!{m64x8, m64x8, M, 8, 8, one, [1, 0, 2, 5, 4, 7, 6, 3]}
shuf!{m64x8, m64x8, M, 8, 8, two, [15, 14, 13, 12, 11, 10, 9, 8]}
shuf!{m128x1, m128x2, M, 16, 1, two, [0, 0]}
shuf!{m128x1, m128x2, M, 16, 1, two, [0, 1]}
shuf!{m128x1, m128x2, M, 16, 1, one, [0, 0]}
shuf!{m128x1, m128x4, M, 16, 1, two, [0, 1, 0, 0]}
shuf!{m128x1, m128x4, M, 16, 1, two, [1, 0, 1, 0]}
shuf!{m128x1, m128x4, M, 16, 1, one, [0, 0, 0, 0]}
shuf!{m128x2, m128x2, M, 16, 2, two, [2, 2]}
shuf!{m128x2, m128x2, M, 16, 2, two, [2, 1]}
shuf!{m128x2, m128x2, M, 16, 2, one, [0, 1]}
shuf!{m128x2, m128x2, M, 16, 2, one, [1, 0]}
shuf!{m128x2, m128x2, M, 16, 2, two, [3, 2]}
shuf!{m128x2, m128x4, M, 16, 2, two, [2, 0, 3, 0]}
shuf!{m128x2, m128x4, M, 16, 2, two, [2, 3, 1, 0]}
shuf!{m128x2, m128x4, M, 16, 2, one, [1, 0, 1, 0]}
shuf!{m128x4, m128x2, M, 16, 4, two, [4, 0]}
shuf!{m128x4, m128x2, M, 16, 4, two, [1, 4]}
shuf!{m128x4, m128x2, M, 16, 4, one, [3, 2]}
shuf!{m128x4, m128x4, M, 16, 4, two, [4, 7, 6, 2]}
shuf!{m128x4, m128x4, M, 16, 4, two, [6, 0, 7, 2]}
shuf!{m128x4, m128x4, M, 16, 4, one, [0, 3, 0, 1]}
shuf!{m128x4, m128x4, M, 16, 4, one, [3, 0, 1, 2]}
shuf!{m128x4, m128x4, M, 16, 4, two, [7, 6, 5, 4]}
shuf!{msizex2, msizex2, M, 8, 2, two, [2, 1]}
shuf!{msizex2, msizex2, M, 8, 2, two, [0, 2]}
shuf!{msizex2, msizex2, M, 8, 2, one, [1, 1]}
shuf!{msizex2, msizex2, M, 8, 2, one, [1, 0]}
shuf!{msizex2, msizex2, M, 8, 2, two, [3, 2]}
shuf!{msizex2, msizex4, M, 8, 2, two, [1, 3, 2, 2]}
shuf!{msizex2, msizex4, M, 8, 2, two, [3, 1, 2, 0]}
shuf!{msizex2, msizex4, M, 8, 2, one, [1, 1, 0, 0]}
shuf!{msizex2, msizex8, M, 8, 2, two, [0, 0, 0, 3, 2, 0, 1, 2]}
shuf!{msizex2, msizex8, M, 8, 2, two, [2, 3, 0, 1, 2, 3, 0, 1]}
shuf!{msizex2, msizex8, M, 8, 2, one, [0, 1, 0, 1, 0, 0, 0, 1]}
shuf!{msizex4, msizex2, M, 8, 4, two, [4, 7]}
shuf!{msizex4, msizex2, M, 8, 4, two, [0, 6]}
shuf!{msizex4, msizex2, M, 8, 4, one, [3, 0]}
shuf!{msizex4, msizex4, M, 8, 4, two, [0, 5, 5, 4]}
shuf!{msizex4, msizex4, M, 8, 4, two, [0, 6, 3, 5]}
shuf!{msizex4, msizex4, M, 8, 4, one, [0, 0, 0, 2]}
shuf!{msizex4, msizex4, M, 8, 4, one, [2, 3, 1, 0]}
shuf!{msizex4, msizex4, M, 8, 4, two, [7, 6, 5, 4]}
shuf!{msizex4, msizex8, M, 8, 4, two, [0, 4, 2, 7, 0, 0, 5, 2]}
shuf!{msizex4, msizex8, M, 8, 4, two, [5, 0, 1, 2, 4, 6, 3, 7]}
shuf!{msizex4, msizex8, M, 8, 4, one, [2, 0, 3, 3, 1, 2, 3, 3]}
shuf!{msizex8, msizex2, M, 8, 8, two, [13, 6]}
shuf!{msizex8, msizex2, M, 8, 8, two, [6, 13]}
shuf!{msizex8, msizex2, M, 8, 8, one, [6, 3]}
shuf!{msizex8, msizex4, M, 8, 8, two, [5, 8, 3, 5]}
shuf!{msizex8, msizex4, M, 8, 8, two, [6, 14, 2, 9]}
shuf!{msizex8, msizex4, M, 8, 8, one, [4, 6, 1, 7]}
shuf!{msizex8, msizex8, M, 8, 8, two, [14, 2, 0, 0, 9, 4, 13, 7]}
shuf!{msizex8, msizex8, M, 8, 8, two, [0, 3, 10, 13, 11, 14, 12, 4]}
shuf!{msizex8, msizex8, M, 8, 8, one, [6, 6, 0, 6, 1, 0, 5, 6]}
shuf!{msizex8, msizex8, M, 8, 8, one, [6, 2, 4, 0, 7, 1, 5, 3]}
shuf!{msizex8, msizex8, M, 8, 8, two, [15, 14, 13, 12, 11, 10, 9, 8]}
}
