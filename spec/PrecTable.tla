----------------------------- MODULE PrecTable -----------------------------
(* The published working precisions for the primes p < 2n + max(r), where the
   precision loss of the Frobenius formula has no simple closed form (for larger p
   K06 derives the requirement).  Rows of the table of the library's author. *)
SmallRows == <<
  \* for p = 2: the smallest values with which all 336 smooth cubics over F_2 get the right answer
  [n |-> 2, d |-> 3, p |-> 2, precision |-> 6, N |-> <<3, 3>>, cp |-> <<3, 3, 3>>],
  [n |-> 2, d |-> 3, p |-> 5, precision |-> 3, N |-> <<2, 2>>, cp |-> <<2, 2, 2>>],
  [n |-> 2, d |-> 4, p |-> 3, precision |-> 7, N |-> <<4, 4>>, cp |-> <<5, 4, 3, 3, 3, 3, 3>>],
  [n |-> 2, d |-> 4, p |-> 5, precision |-> 5, N |-> <<3, 3>>, cp |-> <<5, 4, 3, 3, 3, 3, 3>>],
  [n |-> 2, d |-> 5, p |-> 3, precision |-> 12, N |-> <<6, 6>>, cp |-> <<10, 9, 8, 7, 6, 5, 5, 5, 5, 5, 5, 5, 5>>],
  [n |-> 2, d |-> 5, p |-> 7, precision |-> 7, N |-> <<4, 4>>, cp |-> <<9, 8, 7, 6, 5, 4, 4, 4, 4, 4, 4, 4, 4>>],
  [n |-> 2, d |-> 6, p |-> 5, precision |-> 13, N |-> <<7, 7>>, cp |-> <<15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6>>],
  [n |-> 2, d |-> 6, p |-> 7, precision |-> 13, N |-> <<6, 7>>, cp |-> <<15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6>>],
  [n |-> 2, d |-> 7, p |-> 3, precision |-> 23, N |-> <<11, 11>>, cp |-> <<23, 22, 21, 20, 19, 18, 17, 16, 15, 14, 13, 12, 11, 10, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9>>],
  [n |-> 2, d |-> 7, p |-> 5, precision |-> 20, N |-> <<10, 10>>, cp |-> <<23, 22, 21, 20, 19, 18, 17, 16, 15, 14, 13, 12, 11, 10, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9>>],
  [n |-> 2, d |-> 7, p |-> 11, precision |-> 17, N |-> <<9, 9>>, cp |-> <<23, 22, 21, 20, 19, 18, 17, 16, 15, 14, 13, 12, 11, 10, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9>>],
  [n |-> 2, d |-> 8, p |-> 3, precision |-> 30, N |-> <<14, 14>>, cp |-> <<32, 31, 30, 29, 28, 27, 26, 25, 24, 23, 22, 21, 20, 19, 18, 17, 16, 15, 14, 13, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12>>],
  [n |-> 2, d |-> 8, p |-> 5, precision |-> 26, N |-> <<13, 13>>, cp |-> <<32, 31, 30, 29, 28, 27, 26, 25, 24, 23, 22, 21, 20, 19, 18, 17, 16, 15, 14, 13, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12>>],
  [n |-> 2, d |-> 8, p |-> 7, precision |-> 25, N |-> <<13, 13>>, cp |-> <<32, 31, 30, 29, 28, 27, 26, 25, 24, 23, 22, 21, 20, 19, 18, 17, 16, 15, 14, 13, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12>>],
  [n |-> 2, d |-> 8, p |-> 11, precision |-> 25, N |-> <<13, 13>>, cp |-> <<32, 31, 30, 29, 28, 27, 26, 25, 24, 23, 22, 21, 20, 19, 18, 17, 16, 15, 14, 13, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12>>],
  [n |-> 2, d |-> 8, p |-> 13, precision |-> 25, N |-> <<12, 13>>, cp |-> <<32, 31, 30, 29, 28, 27, 26, 25, 24, 23, 22, 21, 20, 19, 18, 17, 16, 15, 14, 13, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12>>],
  [n |-> 2, d |-> 9, p |-> 5, precision |-> 33, N |-> <<16, 16>>, cp |-> <<42, 41, 40, 39, 38, 37, 36, 35, 34, 33, 32, 31, 30, 29, 28, 27, 26, 25, 24, 23, 22, 21, 20, 19, 18, 17, 16, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15>>],
  [n |-> 2, d |-> 9, p |-> 7, precision |-> 32, N |-> <<16, 16>>, cp |-> <<42, 41, 40, 39, 38, 37, 36, 35, 34, 33, 32, 31, 30, 29, 28, 27, 26, 25, 24, 23, 22, 21, 20, 19, 18, 17, 16, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15>>],
  [n |-> 2, d |-> 9, p |-> 11, precision |-> 31, N |-> <<16, 16>>, cp |-> <<42, 41, 40, 39, 38, 37, 36, 35, 34, 33, 32, 31, 30, 29, 28, 27, 26, 25, 24, 23, 22, 21, 20, 19, 18, 17, 16, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15>>],
  [n |-> 2, d |-> 9, p |-> 13, precision |-> 31, N |-> <<16, 16>>, cp |-> <<42, 41, 40, 39, 38, 37, 36, 35, 34, 33, 32, 31, 30, 29, 28, 27, 26, 25, 24, 23, 22, 21, 20, 19, 18, 17, 16, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15>>],
  [n |-> 2, d |-> 9, p |-> 17, precision |-> 29, N |-> <<15, 15>>, cp |-> <<42, 41, 40, 39, 38, 37, 36, 35, 34, 33, 32, 31, 30, 29, 28, 27, 26, 25, 24, 23, 22, 21, 20, 19, 18, 17, 16, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15>>],
  [n |-> 3, d |-> 4, p |-> 3, precision |-> 16, N |-> <<7, 7, 8>>, cp |-> <<24, 23, 22, 21, 20, 19, 18, 17, 16, 15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 5, 5>>],
  [n |-> 3, d |-> 4, p |-> 5, precision |-> 9, N |-> <<4, 5, 5>>, cp |-> <<23, 22, 21, 20, 19, 18, 17, 16, 15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 4, 4>>],
  [n |-> 3, d |-> 4, p |-> 7, precision |-> 6, N |-> <<4, 4, 3>>, cp |-> <<23, 22, 21, 20, 19, 18, 17, 16, 15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 3>>],
  [n |-> 3, d |-> 5, p |-> 3, precision |-> 21, N |-> <<11, 11, 10>>, cp |-> <<58, 56, 54, 52, 51, 50, 49, 48, 47, 46, 45, 44, 43, 42, 41, 40, 39, 38, 37, 36, 35, 34, 33, 32, 31, 30, 29, 28, 27, 26, 25, 24, 23, 22, 21, 20, 19, 18, 17, 16, 15, 14, 13, 12, 11, 10, 9, 8, 7, 7, 7, 7, 7>>],
  [n |-> 3, d |-> 5, p |-> 7, precision |-> 14, N |-> <<8, 8, 7>>, cp |-> <<57, 55, 53, 51, 50, 49, 48, 47, 46, 45, 44, 43, 42, 41, 40, 39, 38, 37, 36, 35, 34, 33, 32, 31, 30, 29, 28, 27, 26, 25, 24, 23, 22, 21, 20, 19, 18, 17, 16, 15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 6, 6, 6, 6>>],
  [n |-> 3, d |-> 5, p |-> 11, precision |-> 12, N |-> <<7, 7, 6>>, cp |-> <<57, 55, 53, 51, 50, 49, 48, 47, 46, 45, 44, 43, 42, 41, 40, 39, 38, 37, 36, 35, 34, 33, 32, 31, 30, 29, 28, 27, 26, 25, 24, 23, 22, 21, 20, 19, 18, 17, 16, 15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 6, 6, 6, 6>>],
  [n |-> 3, d |-> 6, p |-> 5, precision |-> 29, N |-> <<15, 15, 14>>, cp |-> <<116, 114, 112, 110, 108, 106, 104, 102, 100, 98, 97, 96, 95, 94, 93, 92, 91, 90, 89, 88, 87, 86, 85, 84, 83, 82, 81, 80, 79, 78, 77, 76, 75, 74, 73, 72, 71, 70, 69, 68, 67, 66, 65, 64, 63, 62, 61, 60, 59, 58, 57, 56, 55, 54, 53, 52, 51, 50, 49, 48, 47, 46, 45, 44, 43, 42, 41, 40, 39, 38, 37, 36, 35, 34, 33, 32, 31, 30, 29, 28, 27, 26, 25, 24, 23, 22, 21, 20, 19, 18, 17, 16, 15, 14, 13, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12>>],
  [n |-> 3, d |-> 6, p |-> 7, precision |-> 28, N |-> <<15, 15, 14>>, cp |-> <<116, 114, 112, 110, 108, 106, 104, 102, 100, 98, 97, 96, 95, 94, 93, 92, 91, 90, 89, 88, 87, 86, 85, 84, 83, 82, 81, 80, 79, 78, 77, 76, 75, 74, 73, 72, 71, 70, 69, 68, 67, 66, 65, 64, 63, 62, 61, 60, 59, 58, 57, 56, 55, 54, 53, 52, 51, 50, 49, 48, 47, 46, 45, 44, 43, 42, 41, 40, 39, 38, 37, 36, 35, 34, 33, 32, 31, 30, 29, 28, 27, 26, 25, 24, 23, 22, 21, 20, 19, 18, 17, 16, 15, 14, 13, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12>>],
  [n |-> 3, d |-> 6, p |-> 11, precision |-> 26, N |-> <<14, 14, 13>>, cp |-> <<116, 114, 112, 110, 108, 106, 104, 102, 100, 98, 97, 96, 95, 94, 93, 92, 91, 90, 89, 88, 87, 86, 85, 84, 83, 82, 81, 80, 79, 78, 77, 76, 75, 74, 73, 72, 71, 70, 69, 68, 67, 66, 65, 64, 63, 62, 61, 60, 59, 58, 57, 56, 55, 54, 53, 52, 51, 50, 49, 48, 47, 46, 45, 44, 43, 42, 41, 40, 39, 38, 37, 36, 35, 34, 33, 32, 31, 30, 29, 28, 27, 26, 25, 24, 23, 22, 21, 20, 19, 18, 17, 16, 15, 14, 13, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12>>],
  [n |-> 3, d |-> 6, p |-> 13, precision |-> 26, N |-> <<14, 14, 13>>, cp |-> <<116, 114, 112, 110, 108, 106, 104, 102, 100, 98, 97, 96, 95, 94, 93, 92, 91, 90, 89, 88, 87, 86, 85, 84, 83, 82, 81, 80, 79, 78, 77, 76, 75, 74, 73, 72, 71, 70, 69, 68, 67, 66, 65, 64, 63, 62, 61, 60, 59, 58, 57, 56, 55, 54, 53, 52, 51, 50, 49, 48, 47, 46, 45, 44, 43, 42, 41, 40, 39, 38, 37, 36, 35, 34, 33, 32, 31, 30, 29, 28, 27, 26, 25, 24, 23, 22, 21, 20, 19, 18, 17, 16, 15, 14, 13, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12>>],
  [n |-> 3, d |-> 6, p |-> 17, precision |-> 24, N |-> <<13, 13, 12>>, cp |-> <<116, 114, 112, 110, 108, 106, 104, 102, 100, 98, 97, 96, 95, 94, 93, 92, 91, 90, 89, 88, 87, 86, 85, 84, 83, 82, 81, 80, 79, 78, 77, 76, 75, 74, 73, 72, 71, 70, 69, 68, 67, 66, 65, 64, 63, 62, 61, 60, 59, 58, 57, 56, 55, 54, 53, 52, 51, 50, 49, 48, 47, 46, 45, 44, 43, 42, 41, 40, 39, 38, 37, 36, 35, 34, 33, 32, 31, 30, 29, 28, 27, 26, 25, 24, 23, 22, 21, 20, 19, 18, 17, 16, 15, 14, 13, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12>>]
>>
=============================================================================
