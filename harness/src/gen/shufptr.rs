// generated by tools/mklists.py
fn list_shufptr() {
shuf!{cptrx2<i32>, cptrx2<i32>, P, 8, 2, two, [2, 2]}
shuf!{cptrx2<i32>, cptrx2<i32>, P, 8, 2, two, [2, 1]}
shuf!{cptrx2<i32>, cptrx2<i32>, P, 8, 2, one, [0, 1]}
shuf!{cptrx2<i32>, cptrx2<i32>, P, 8, 2, one, [1, 0]}
shuf!{cptrx2<i32>, cptrx2<i32>, P, 8, 2, two, [3, 2]}
shuf!{cptrx2<i32>, cptrx4<i32>, P, 8, 2, two, [1, 0, 2, 0]}
shuf!{cptrx2<i32>, cptrx4<i32>, P, 8, 2, two, [0, 3, 1, 2]}
shuf!{cptrx2<i32>, cptrx4<i32>, P, 8, 2, one, [0, 1, 0, 1]}
shuf!{cptrx2<i32>, cptrx8<i32>, P, 8, 2, two, [0, 2, 2, 3, 3, 1, 2, 1]}
shuf!{cptrx2<i32>, cptrx8<i32>, P, 8, 2, two, [3, 1, 2, 0, 3, 1, 2, 0]}
shuf!{cptrx2<i32>, cptrx8<i32>, P, 8, 2, one, [0, 0, 1, 1, 0, 0, 0, 0]}
shuf!{cptrx4<i32>, cptrx2<i32>, P, 8, 4, two, [7, 1]}
shuf!{cptrx4<i32>, cptrx2<i32>, P, 8, 4, two, [7, 5]}
shuf!{cptrx4<i32>, cptrx2<i32>, P, 8, 4, one, [3, 1]}
shuf!{cptrx4<i32>, cptrx4<i32>, P, 8, 4, two, [5, 5, 0, 7]}
shuf!{cptrx4<i32>, cptrx4<i32>, P, 8, 4, two, [7, 4, 1, 2]}
shuf!{cptrx4<i32>, cptrx4<i32>, P, 8, 4, one, [3, 0, 2, 1]}
shuf!{cptrx4<i32>, cptrx4<i32>, P, 8, 4, one, [3, 2, 0, 1]}
shuf!{cptrx4<i32>, cptrx4<i32>, P, 8, 4, two, [7, 6, 5, 4]}
shuf!{cptrx4<i32>, cptrx8<i32>, P, 8, 4, two, [1, 1, 1, 1, 7, 1, 3, 4]}
shuf!{cptrx4<i32>, cptrx8<i32>, P, 8, 4, two, [2, 5, 4, 6, 0, 7, 1, 3]}
shuf!{cptrx4<i32>, cptrx8<i32>, P, 8, 4, one, [3, 1, 2, 2, 1, 3, 2, 3]}
shuf!{cptrx8<i32>, cptrx2<i32>, P, 8, 8, two, [12, 8]}
shuf!{cptrx8<i32>, cptrx2<i32>, P, 8, 8, two, [13, 8]}
shuf!{cptrx8<i32>, cptrx2<i32>, P, 8, 8, one, [2, 6]}
shuf!{cptrx8<i32>, cptrx4<i32>, P, 8, 8, two, [10, 7, 6, 4]}
shuf!{cptrx8<i32>, cptrx4<i32>, P, 8, 8, two, [2, 3, 0, 4]}
shuf!{cptrx8<i32>, cptrx4<i32>, P, 8, 8, one, [4, 5, 4, 6]}
shuf!{cptrx8<i32>, cptrx8<i32>, P, 8, 8, two, [5, 14, 7, 10, 13, 4, 8, 0]}
shuf!{cptrx8<i32>, cptrx8<i32>, P, 8, 8, two, [3, 7, 8, 12, 15, 11, 14, 6]}
shuf!{cptrx8<i32>, cptrx8<i32>, P, 8, 8, one, [6, 7, 5, 7, 5, 2, 0, 2]}
shuf!{cptrx8<i32>, cptrx8<i32>, P, 8, 8, one, [4, 6, 1, 2, 0, 7, 3, 5]}
shuf!{cptrx8<i32>, cptrx8<i32>, P, 8, 8, two, [15, 14, 13, 12, 11, 10, 9, 8]}
shuf!{mptrx2<i32>, mptrx2<i32>, P, 8, 2, two, [3, 0]}
shuf!{mptrx2<i32>, mptrx2<i32>, P, 8, 2, two, [0, 3]}
shuf!{mptrx2<i32>, mptrx2<i32>, P, 8, 2, one, [1, 1]}
shuf!{mptrx2<i32>, mptrx2<i32>, P, 8, 2, one, [1, 0]}
shuf!{mptrx2<i32>, mptrx2<i32>, P, 8, 2, two, [3, 2]}
shuf!{mptrx2<i32>, mptrx4<i32>, P, 8, 2, two, [0, 1, 1, 0]}
shuf!{mptrx2<i32>, mptrx4<i32>, P, 8, 2, two, [1, 3, 0, 2]}
shuf!{mptrx2<i32>, mptrx4<i32>, P, 8, 2, one, [1, 1, 0, 0]}
shuf!{mptrx2<i32>, mptrx8<i32>, P, 8, 2, two, [2, 2, 3, 1, 2, 2, 1, 2]}
shuf!{mptrx2<i32>, mptrx8<i32>, P, 8, 2, two, [0, 2, 1, 3, 0, 2, 1, 3]}
shuf!{mptrx2<i32>, mptrx8<i32>, P, 8, 2, one, [1, 1, 0, 1, 0, 1, 0, 0]}
shuf!{mptrx4<i32>, mptrx2<i32>, P, 8, 4, two, [5, 1]}
shuf!{mptrx4<i32>, mptrx2<i32>, P, 8, 4, two, [5, 2]}
shuf!{mptrx4<i32>, mptrx2<i32>, P, 8, 4, one, [3, 1]}
shuf!{mptrx4<i32>, mptrx4<i32>, P, 8, 4, two, [5, 0, 4, 0]}
shuf!{mptrx4<i32>, mptrx4<i32>, P, 8, 4, two, [5, 2, 7, 0]}
shuf!{mptrx4<i32>, mptrx4<i32>, P, 8, 4, one, [0, 0, 3, 2]}
shuf!{mptrx4<i32>, mptrx4<i32>, P, 8, 4, one, [2, 3, 0, 1]}
shuf!{mptrx4<i32>, mptrx4<i32>, P, 8, 4, two, [7, 6, 5, 4]}
shuf!{mptrx4<i32>, mptrx8<i32>, P, 8, 4, two, [4, 0, 4, 7, 1, 6, 0, 3]}
shuf!{mptrx4<i32>, mptrx8<i32>, P, 8, 4, two, [7, 2, 3, 0, 5, 1, 4, 6]}
shuf!{mptrx4<i32>, mptrx8<i32>, P, 8, 4, one, [0, 1, 2, 2, 1, 0, 0, 2]}
shuf!{mptrx8<i32>, mptrx2<i32>, P, 8, 8, two, [0, 3]}
shuf!{mptrx8<i32>, mptrx2<i32>, P, 8, 8, two, [14, 4]}
shuf!{mptrx8<i32>, mptrx2<i32>, P, 8, 8, one, [5, 1]}
shuf!{mptrx8<i32>, mptrx4<i32>, P, 8, 8, two, [11, 0, 8, 13]}
shuf!{mptrx8<i32>, mptrx4<i32>, P, 8, 8, two, [5, 13, 4, 6]}
shuf!{mptrx8<i32>, mptrx4<i32>, P, 8, 8, one, [1, 3, 6, 7]}
shuf!{mptrx8<i32>, mptrx8<i32>, P, 8, 8, two, [5, 7, 0, 15, 6, 9, 14, 13]}
shuf!{mptrx8<i32>, mptrx8<i32>, P, 8, 8, two, [13, 9, 6, 5, 12, 8, 0, 14]}
shuf!{mptrx8<i32>, mptrx8<i32>, P, 8, 8, one, [4, 3, 7, 4, 6, 3, 6, 6]}
shuf!{mptrx8<i32>, mptrx8<i32>, P, 8, 8, one, [7, 5, 6, 0, 1, 3, 2, 4]}
shuf!{mptrx8<i32>, mptrx8<i32>, P, 8, 8, two, [15, 14, 13, 12, 11, 10, 9, 8]}
}
