25,0,32,2,
27,0,33,2,
26,0,34,2,
23,0,35,2,
5,23,36,0,
7,23,37,0,
28,0,38,2,
30,29,39,0,
6,23,40,0,
4,23,41,0,
29,0,42,2,
8,23,43,0,
19,23,44,0,
4,5,45,1,
45,23,46,0,
4,46,47,1,
22,21,48,1,
48,23,49,0,
22,49,50,1,
23,20,51,0,
22,0,52,2,
6,7,53,1,
53,23,54,0,
6,54,55,1,
19,20,56,1,
56,23,57,0,
19,57,58,1,
20,19,59,1,
59,23,60,0,
20,60,61,1,
20,21,62,1,
62,23,63,0,
20,63,64,1,
19,0,65,2,
21,0,66,2,
4,0,67,2,
3,0,68,2,
2,0,69,2,
6,0,70,2,
7,0,71,2,
16,0,72,2,
17,0,73,2,
18,0,74,2,
1,0,75,2,
0,0,76,2,
5,0,77,2,
9,0,78,2,
8,0,79,2,
12,0,80,2,
20,0,81,2,
15,0,82,2,
14,0,83,2,
13,0,84,2,
10,0,85,2,
11,0,86,2,
24,0,87,2,
30,0,88,2,
27,28,89,0,
24,23,90,0,
26,25,91,0,
32,26,92,1,
33,28,93,1,
34,27,94,1,
90,0,95,2,
35,24,96,1,
6,35,97,0,
8,35,98,0,
37,0,99,2,
36,0,100,2,
38,29,101,1,
7,35,102,0,
39,0,103,2,
5,35,104,0,
41,0,105,2,
40,0,106,2,
42,30,107,1,
43,0,108,2,
21,35,109,0,
23,52,110,0,
50,0,111,2,
51,0,112,2,
61,0,113,2,
52,66,114,0,
70,71,115,0,
67,68,116,0,
76,77,117,0,
69,75,118,0,
72,73,119,0,
74,65,120,0,
85,86,121,0,
79,78,122,0,
80,84,123,0,
83,82,124,0,
32,34,125,0,
42,88,126,0,
33,38,127,0,
35,87,128,0,
89,91,129,0,
39,90,130,0,
90,92,131,0,
93,94,132,0,
96,23,133,1,
95,25,134,1,
23,96,135,0,
93,0,136,2,
96,0,137,2,
98,0,138,2,
97,0,139,2,
96,35,140,0,
102,0,141,2,
104,0,142,2,
129,130,143,0,
47,96,144,0,
109,0,145,2,
110,0,146,2,
35,111,147,1,
147,24,148,0,
35,148,149,1,
58,96,150,0,
96,64,151,0,
114,81,152,0,
119,120,153,0,
115,116,154,0,
118,117,155,0,
123,124,156,0,
122,121,157,0,
128,125,158,0,
127,126,159,0,
94,0,160,2,
25,95,161,0,
131,0,162,2,
133,0,163,2,
92,161,164,1,
135,134,165,0,
27,136,166,0,
138,99,167,0,
137,35,168,0,
137,23,169,0,
139,100,170,0,
135,134,171,1,
3,140,172,0,
4,135,173,0,
105,142,174,0,
0,140,175,0,
141,106,176,0,
1,135,177,0,
134,0,178,2,
0,135,179,0,
142,106,180,0,
2,135,181,0,
1,140,182,0,
108,141,183,0,
140,11,184,0,
12,135,185,0,
2,140,186,0,
13,135,187,0,
3,135,188,0,
12,140,189,0,
11,135,190,0,
10,140,191,0,
10,135,192,0,
144,0,193,2,
15,135,194,0,
16,135,195,0,
15,140,196,0,
140,9,197,0,
135,9,198,0,
14,140,199,0,
140,8,200,0,
13,140,201,0,
14,135,202,0,
16,140,203,0,
17,135,204,0,
19,135,205,0,
18,140,206,0,
145,112,207,0,
17,140,208,0,
137,55,209,0,
18,135,210,0,
150,0,211,2,
149,0,212,2,
55,47,213,1,
213,137,214,0,
55,214,215,1,
140,21,216,0,
137,58,217,0,
151,0,218,2,
153,152,219,0,
154,155,220,0,
156,157,221,0,
158,159,222,0,
143,0,223,2,
136,160,224,0,
26,162,225,0,
163,0,226,2,
163,23,227,0,
165,164,228,0,
93,224,229,1,
229,27,230,0,
93,230,231,1,
163,35,232,0,
165,164,233,1,
1,168,234,0,
2,169,235,0,
167,0,236,2,
170,0,237,2,
171,0,238,2,
172,0,239,2,
173,0,240,2,
176,0,241,2,
177,0,242,2,
175,0,243,2,
174,0,244,2,
0,165,245,0,
4,169,246,0,
0,169,247,0,
180,0,248,2,
3,168,249,0,
2,168,250,0,
3,169,251,0,
181,0,252,2,
10,169,253,0,
182,0,254,2,
9,168,255,0,
0,168,256,0,
1,169,257,0,
10,168,258,0,
9,169,259,0,
8,168,260,0,
11,169,261,0,
184,0,262,2,
185,0,263,2,
191,0,264,2,
190,0,265,2,
189,0,266,2,
17,168,267,0,
183,0,268,2,
187,0,269,2,
186,0,270,2,
188,0,271,2,
13,168,272,0,
18,169,273,0,
14,169,274,0,
13,169,275,0,
12,168,276,0,
15,168,277,0,
16,169,278,0,
199,0,279,2,
192,0,280,2,
197,0,281,2,
194,0,282,2,
11,168,283,0,
14,168,284,0,
12,169,285,0,
15,169,286,0,
17,169,287,0,
16,168,288,0,
200,0,289,2,
195,0,290,2,
198,0,291,2,
196,0,292,2,
206,0,293,2,
203,0,294,2,
204,0,295,2,
110,207,296,1,
296,163,297,0,
110,297,298,1,
210,0,299,2,
164,0,300,2,
209,0,301,2,
201,0,302,2,
202,0,303,2,
178,164,304,0,
208,0,305,2,
163,146,306,0,
205,0,307,2,
149,171,308,0,
111,113,309,1,
309,163,310,0,
111,310,311,1,
19,169,312,0,
18,168,313,0,
216,0,314,2,
217,0,315,2,
134,164,316,0,
220,219,317,0,
225,0,318,2,
225,94,319,1,
226,35,320,0,
23,226,321,0,
227,9,322,0,
232,10,323,0,
166,225,324,0,
228,0,325,2,
232,14,326,0,
227,13,327,0,
231,0,328,2,
232,2,329,0,
232,13,330,0,
227,12,331,0,
234,0,332,2,
235,0,333,2,
236,237,334,1,
334,163,335,0,
236,335,336,1,
233,0,337,2,
232,17,338,0,
227,16,339,0,
239,240,340,0,
243,242,341,0,
241,244,342,1,
342,163,343,0,
241,343,344,1,
227,17,345,0,
232,18,346,0,
249,0,347,2,
248,96,348,0,
232,19,349,0,
227,18,350,0,
246,0,351,2,
247,0,352,2,
44,226,353,0,
232,11,354,0,
251,0,355,2,
250,0,356,2,
227,10,357,0,
232,15,358,0,
227,14,359,0,
232,12,360,0,
227,15,361,0,
232,16,362,0,
227,11,363,0,
244,226,364,0,
232,3,365,0,
227,8,366,0,
232,9,367,0,
255,0,368,2,
163,241,369,0,
253,0,370,2,
237,226,371,0,
232,4,372,0,
258,0,373,2,
261,0,374,2,
260,0,375,2,
163,236,376,0,
257,0,377,2,
256,0,378,2,
259,0,379,2,
270,271,380,0,
264,265,381,0,
275,0,382,2,
276,0,383,2,
137,268,384,0,
273,0,385,2,
266,269,386,0,
262,263,387,0,
272,0,388,2,
274,0,389,2,
267,0,390,2,
288,0,391,2,
284,0,392,2,
286,0,393,2,
279,282,394,0,
292,290,395,0,
283,0,396,2,
285,0,397,2,
287,0,398,2,
289,291,399,0,
281,280,400,0,
277,0,401,2,
278,0,402,2,
268,248,403,1,
403,137,404,0,
268,404,405,1,
294,295,406,0,
293,307,407,0,
305,299,408,0,
298,0,409,2,
302,303,410,0,
311,0,411,2,
308,0,412,2,
313,0,413,2,
312,0,414,2,
315,314,415,0,
232,1,416,0,
317,221,417,0,
311,0,418,2,
132,318,419,0,
319,0,420,2,
321,15,421,0,
321,11,422,0,
320,12,423,0,
320,16,424,0,
321,3,425,0,
320,4,426,0,
320,15,427,0,
321,14,428,0,
324,0,429,2,
323,0,430,2,
322,0,431,2,
327,0,432,2,
326,0,433,2,
330,0,434,2,
331,0,435,2,
321,18,436,0,
329,0,437,2,
165,319,438,0,
320,19,439,0,
338,0,440,2,
339,0,441,2,
337,238,442,0,
336,0,443,2,
333,332,444,0,
316,319,445,0,
341,0,446,2,
321,20,447,0,
320,21,448,0,
346,0,449,2,
345,0,450,2,
321,12,451,0,
320,13,452,0,
252,352,453,0,
320,10,454,0,
321,9,455,0,
321,16,456,0,
320,17,457,0,
353,0,458,2,
348,0,459,2,
320,20,460,0,
351,347,461,0,
320,9,462,0,
321,17,463,0,
320,18,464,0,
320,14,465,0,
321,13,466,0,
349,0,467,2,
350,0,468,2,
321,8,469,0,
321,10,470,0,
320,11,471,0,
358,0,472,2,
354,0,473,2,
357,0,474,2,
359,0,475,2,
360,0,476,2,
363,0,477,2,
355,356,478,0,
362,0,479,2,
361,0,480,2,
370,368,481,0,
366,0,482,2,
379,375,483,0,
367,0,484,2,
377,378,485,0,
371,0,486,2,
372,0,487,2,
376,0,488,2,
374,373,489,0,
365,0,490,2,
171,337,491,0,
364,0,492,2,
369,0,493,2,
385,390,494,0,
389,388,495,0,
382,383,496,0,
384,0,497,2,
393,392,498,0,
402,401,499,0,
397,396,500,0,
418,227,501,1,
501,171,502,0,
418,502,503,1,
398,391,504,0,
399,301,505,0,
238,409,506,0,
414,413,507,0,
415,0,508,2,
320,3,509,0,
321,2,510,0,
416,0,511,2,
344,0,512,2,
417,222,513,0,
438,0,514,2,
419,0,515,2,
426,0,516,2,
421,0,517,2,
420,325,518,0,
425,0,519,2,
422,0,520,2,
423,0,521,2,
424,0,522,2,
432,433,523,0,
428,0,524,2,
427,0,525,2,
431,430,526,0,
435,434,527,0,
439,0,528,2,
436,0,529,2,
441,440,530,0,
444,340,531,0,
449,450,532,0,
447,0,533,2,
448,0,534,2,
460,0,535,2,
469,0,536,2,
462,0,537,2,
468,467,538,0,
452,0,539,2,
451,0,540,2,
457,0,541,2,
456,0,542,2,
453,254,543,0,
466,0,544,2,
465,0,545,2,
454,0,546,2,
461,459,547,0,
455,0,548,2,
464,0,549,2,
463,0,550,2,
474,473,551,0,
471,0,552,2,
470,0,553,2,
475,472,554,0,
477,476,555,0,
478,193,556,0,
480,479,557,0,
486,487,558,0,
489,386,559,0,
420,164,560,0,
485,380,561,0,
492,490,562,0,
481,387,563,0,
483,381,564,0,
482,484,565,0,
495,395,566,0,
496,394,567,0,
400,497,568,0,
494,211,569,0,
499,408,570,0,
504,407,571,0,
500,410,572,0,
505,0,573,2,
498,406,574,0,
507,218,575,0,
510,0,576,2,
509,0,577,2,
513,0,578,2,
28,515,579,0,
328,515,580,0,
518,103,581,0,
520,521,582,0,
519,516,583,0,
517,522,584,0,
233,514,585,0,
524,525,586,0,
529,528,587,0,
531,0,588,2,
532,458,589,0,
534,533,590,0,
518,0,591,2,
540,539,592,0,
548,546,593,0,
543,0,594,2,
542,541,595,0,
547,0,596,2,
536,537,597,0,
544,545,598,0,
550,549,599,0,
556,0,600,2,
553,552,601,0,
563,0,602,2,
561,0,603,2,
559,0,604,2,
562,0,605,2,
564,0,606,2,
558,0,607,2,
569,0,608,2,
566,0,609,2,
567,0,610,2,
568,0,611,2,
571,0,612,2,
574,0,613,2,
570,0,614,2,
572,0,615,2,
575,0,616,2,
576,577,617,0,
578,143,618,0,
223,578,619,0,
579,0,620,2,
101,579,621,1,
580,429,622,0,
582,526,623,0,
583,437,624,0,
584,523,625,0,
586,527,626,0,
587,530,627,0,
588,179,628,1,
628,178,629,0,
588,629,630,1,
590,538,631,0,
589,535,632,0,
591,337,633,0,
595,554,634,0,
593,488,635,0,
596,594,636,1,
636,178,637,0,
596,637,638,1,
592,551,639,0,
599,557,640,0,
598,555,641,0,
597,493,642,0,
601,565,643,0,
600,446,644,1,
644,178,645,0,
600,645,646,1,
606,215,647,1,
647,178,648,0,
606,648,649,1,
405,588,650,1,
650,178,651,0,
405,651,652,1,
602,405,653,1,
653,178,654,0,
602,654,655,1,
215,603,656,1,
656,178,657,0,
215,657,658,1,
617,511,659,0,
618,0,660,2,
101,620,661,0,
621,0,662,2,
622,581,663,0,
622,0,664,2,
625,623,665,1,
665,238,666,0,
625,666,667,1,
443,624,668,1,
668,238,669,0,
443,669,670,1,
626,0,671,2,
627,0,672,2,
632,0,673,2,
632,238,674,0,
633,238,675,0,
631,0,676,2,
641,0,677,2,
642,0,678,2,
640,0,679,2,
635,0,680,2,
623,0,681,2,
639,0,682,2,
634,0,683,2,
625,0,684,2,
638,164,685,0,
643,0,686,2,
633,503,687,0,
646,164,688,0,
626,643,689,1,
689,238,690,0,
626,690,691,1,
512,659,692,1,
692,238,693,0,
512,693,694,1,
633,506,695,0,
661,0,696,2,
585,662,697,0,
664,621,698,0,
662,514,699,0,
442,663,700,0,
667,670,701,1,
701,337,702,0,
667,702,703,1,
491,663,704,0,
674,0,705,2,
306,676,706,1,
706,238,707,0,
306,707,708,1,
212,673,709,1,
709,238,710,0,
212,710,711,1,
675,306,712,0,
409,672,713,1,
713,238,714,0,
409,714,715,1,
675,212,716,0,
411,679,717,1,
717,238,718,0,
411,718,719,1,
691,694,720,1,
720,337,721,0,
691,721,722,1,
675,227,723,0,
29,696,724,0,
697,663,725,0,
700,699,726,0,
663,699,727,0,
703,0,728,2,
704,699,729,0,
705,337,730,0,
633,708,731,0,
337,711,732,0,
633,715,733,0,
722,0,734,2,
107,724,735,1,
725,238,736,0,
725,171,737,0,
726,344,738,0,
727,728,739,0,
726,605,740,0,
726,677,741,0,
729,678,742,0,
725,711,743,0,
729,679,744,0,
729,673,745,0,
729,671,746,0,
726,684,747,0,
726,671,748,0,
729,672,749,0,
729,684,750,0,
726,607,751,0,
729,680,752,0,
729,683,753,0,
725,708,754,0,
726,681,755,0,
726,682,756,0,
729,682,757,0,
729,677,758,0,
726,680,759,0,
726,678,760,0,
730,727,761,0,
726,336,762,0,
506,725,763,0,
726,683,764,0,
727,337,765,0,
729,676,766,0,
725,503,767,0,
726,686,768,0,
725,715,769,0,
729,681,770,0,
726,306,771,0,
726,212,772,0,
732,591,773,0,
727,734,774,0,
729,686,775,0,
725,719,776,0,
776,0,777,2,
735,0,778,2,
736,671,779,0,
738,0,780,2,
737,672,781,0,
739,0,782,2,
699,735,783,0,
736,677,784,0,
736,682,785,0,
737,676,786,0,
751,0,787,2,
752,0,788,2,
754,0,789,2,
756,0,790,2,
757,0,791,2,
736,683,792,0,
737,679,793,0,
737,673,794,0,
749,0,795,2,
747,0,796,2,
748,0,797,2,
736,212,798,0,
745,0,799,2,
743,0,800,2,
750,0,801,2,
753,0,802,2,
755,0,803,2,
746,0,804,2,
741,0,805,2,
744,0,806,2,
740,0,807,2,
742,0,808,2,
737,683,809,0,
767,0,810,2,
769,0,811,2,
768,0,812,2,
766,0,813,2,
763,0,814,2,
764,0,815,2,
765,715,816,0,
736,306,817,0,
760,0,818,2,
765,503,819,0,
736,684,820,0,
227,736,821,0,
761,412,822,0,
758,0,823,2,
765,506,824,0,
759,0,825,2,
762,0,826,2,
770,0,827,2,
765,719,828,0,
765,708,829,0,
771,0,830,2,
772,0,831,2,
775,0,832,2,
774,0,833,2,
319,778,834,0,
698,778,835,0,
779,0,836,2,
781,0,837,2,
783,622,838,0,
784,0,839,2,
786,0,840,2,
785,0,841,2,
805,806,842,0,
789,790,843,0,
801,803,844,0,
798,0,845,2,
797,795,846,0,
794,0,847,2,
792,0,848,2,
793,0,849,2,
787,788,850,0,
809,0,851,2,
807,808,852,0,
817,0,853,2,
819,0,854,2,
820,0,855,2,
821,0,856,2,
824,0,857,2,
823,825,858,0,
822,0,859,2,
816,0,860,2,
829,0,861,2,
828,0,862,2,
834,698,863,0,
835,445,864,0,
836,780,865,0,
560,835,866,0,
712,838,867,0,
687,838,868,0,
716,838,869,0,
731,838,870,0,
846,814,871,0,
420,835,872,0,
773,838,873,0,
733,838,874,0,
695,838,875,0,
723,838,876,0,
876,0,877,2,
863,164,878,0,
864,446,879,0,
865,837,880,0,
300,863,881,0,
863,134,882,0,
863,178,883,0,
304,863,884,0,
864,604,885,0,
864,603,886,0,
866,134,887,0,
864,594,888,0,
685,863,889,0,
864,611,890,0,
867,0,891,2,
864,608,892,0,
688,863,893,0,
245,866,894,0,
864,573,895,0,
864,609,896,0,
864,615,897,0,
864,612,898,0,
869,0,899,2,
864,614,900,0,
864,613,901,0,
866,630,902,0,
868,0,903,2,
870,0,904,2,
864,610,905,0,
864,508,906,0,
685,872,907,0,
688,872,908,0,
864,616,909,0,
873,0,910,2,
140,864,911,0,
864,137,912,0,
866,658,913,0,
875,0,914,2,
874,0,915,2,
878,630,916,0,
878,245,917,0,
879,0,918,2,
833,915,919,0,
914,832,920,0,
883,300,921,0,
245,881,922,0,
884,600,923,0,
881,646,924,0,
882,300,925,0,
884,596,926,0,
878,658,927,0,
886,0,928,2,
889,0,929,2,
884,610,930,0,
887,603,931,0,
884,609,932,0,
884,604,933,0,
887,446,934,0,
878,655,935,0,
881,638,936,0,
884,611,937,0,
881,630,938,0,
884,602,939,0,
885,0,940,2,
884,573,941,0,
878,652,942,0,
878,649,943,0,
888,0,944,2,
890,0,945,2,
895,0,946,2,
881,652,947,0,
877,777,948,0,
881,649,949,0,
884,606,950,0,
887,594,951,0,
884,615,952,0,
892,0,953,2,
891,840,954,0,
881,655,955,0,
893,0,956,2,
894,0,957,2,
897,0,958,2,
850,903,959,0,
852,904,960,0,
898,0,961,2,
881,658,962,0,
899,847,963,0,
902,0,964,2,
896,0,965,2,
901,0,966,2,
900,0,967,2,
165,878,968,0,
905,0,969,2,
906,0,970,2,
884,613,971,0,
884,614,972,0,
907,0,973,2,
908,0,974,2,
909,0,975,2,
910,782,976,0,
22,911,977,0,
912,64,978,0,
884,612,979,0,
913,0,980,2,
917,0,981,2,
916,0,982,2,
918,782,983,0,
925,573,984,0,
921,600,985,0,
925,594,986,0,
924,0,987,2,
925,446,988,0,
923,0,989,2,
926,0,990,2,
922,0,991,2,
925,603,992,0,
943,0,993,2,
942,0,994,2,
929,791,995,0,
938,0,996,2,
935,0,997,2,
940,796,998,0,
941,0,999,2,
937,0,1000,2,
936,0,1001,2,
933,0,1002,2,
921,596,1003,0,
930,0,1004,2,
931,0,1005,2,
934,0,1006,2,
927,0,1007,2,
839,928,1008,0,
932,0,1009,2,
939,0,1010,2,
841,944,1011,0,
956,826,1012,0,
950,0,1013,2,
949,0,1014,2,
843,945,1015,0,
955,0,1016,2,
954,848,1017,0,
844,946,1018,0,
952,0,1019,2,
947,0,1020,2,
951,0,1021,2,
925,611,1022,0,
853,958,1023,0,
962,0,1024,2,
963,855,1025,0,
921,611,1026,0,
925,615,1027,0,
968,22,1028,0,
921,573,1029,0,
971,0,1030,2,
925,604,1031,0,
973,830,1032,0,
972,0,1033,2,
976,918,1034,0,
921,606,1035,0,
968,0,1036,2,
977,0,1037,2,
979,0,1038,2,
925,610,1039,0,
978,0,1040,2,
920,982,1041,0,
919,981,1042,0,
992,0,1043,2,
804,991,1044,0,
986,0,1045,2,
990,802,1046,0,
988,0,1047,2,
989,800,1048,0,
799,987,1049,0,
985,0,1050,2,
984,0,1051,2,
1008,849,1052,0,
997,996,1053,0,
995,818,1054,0,
1011,851,1055,0,
993,810,1056,0,
1000,813,1057,0,
815,1001,1058,0,
948,1007,1059,0,
1009,953,1060,0,
994,811,1061,0,
1003,0,1062,2,
1010,957,1063,0,
1004,1005,1064,0,
845,999,1065,0,
1022,0,1066,2,
860,1020,1067,0,
857,1016,1068,0,
967,1019,1069,0,
1013,856,1070,0,
854,1014,1071,0,
1012,827,1072,0,
862,1024,1073,0,
1028,0,1074,2,
1027,0,1075,2,
1026,0,1076,2,
1029,0,1077,2,
1031,0,1078,2,
1030,975,1079,0,
1036,1037,1080,0,
1035,0,1081,2,
1039,0,1082,2,
1041,880,1083,0,
983,1042,1084,0,
1049,998,1085,0,
1046,1045,1086,0,
842,1043,1087,0,
1048,1047,1088,0,
1044,812,1089,0,
1051,1006,1090,0,
1002,1050,1091,0,
871,1053,1092,0,
959,1052,1093,0,
1063,965,1094,0,
1060,964,1095,0,
1059,858,1096,0,
1054,1017,1097,0,
1062,1021,1098,0,
1058,1057,1099,0,
1064,961,1100,0,
960,1055,1101,0,
1069,861,1102,0,
1070,969,1103,0,
1072,1025,1104,0,
970,1074,1105,0,
1075,1076,1106,0,
1077,974,1107,0,
1079,831,1108,0,
1042,0,1109,2,
1081,1040,1110,0,
1080,1038,1111,0,
1083,1084,1112,0,
1087,1056,1113,0,
1088,1018,1114,0,
1089,1061,1115,0,
1086,1015,1116,0,
1090,859,1117,0,
1065,1085,1118,0,
1091,966,1119,0,
1023,1099,1120,0,
1098,1066,1121,0,
1100,1071,1122,0,
1095,1068,1123,0,
1097,1096,1124,0,
1094,1067,1125,0,
1101,1093,1126,0,
1103,1073,1127,0,
1104,1096,1128,0,
1106,1033,1129,0,
1105,1032,1130,0,
1107,1078,1131,0,
1101,1084,1132,0,
1104,1097,1133,0,
1072,1084,1134,0,
1104,0,1135,2,
1083,0,1136,2,
1084,0,1137,2,
1101,0,1138,2,
1093,0,1139,2,
1096,0,1140,2,
1097,0,1141,2,
1092,0,1142,2,
1110,1082,1143,0,
1111,980,1144,0,
1114,1116,1145,0,
1119,1117,1146,0,
1118,1092,1147,0,
1115,1113,1148,0,
1112,1126,1149,0,
1123,1122,1150,0,
1124,1112,1151,0,
1121,1102,1152,0,
1128,1097,1153,0,
1127,1125,1154,0,
1130,1129,1155,0,
1131,1108,1156,0,
1125,0,1157,2,
1122,0,1158,2,
1123,0,1159,2,
1127,0,1160,2,
1132,1093,1161,0,
1096,1115,1162,0,
1126,1112,1163,0,
1126,1072,1164,0,
1112,1054,1165,0,
1126,1083,1166,0,
1126,1104,1167,0,
1114,1115,1168,0,
1112,1097,1169,0,
1096,1116,1170,0,
1115,0,1171,2,
1132,0,1172,2,
1114,0,1173,2,
1118,0,1174,2,
1116,0,1175,2,
1113,0,1176,2,
1120,0,1177,2,
1143,1144,1178,0,
1125,1146,1179,0,
1148,1145,1180,0,
1147,1120,1181,0,
1150,1152,1182,0,
1149,1152,1183,0,
1151,1167,1184,0,
1153,1149,1185,0,
1152,1122,1186,0,
1155,0,1187,2,
1156,0,1188,2,
1146,0,1189,2,
1152,0,1190,2,
1161,1083,1191,0,
1161,0,1192,2,
1162,1133,1193,0,
1166,1134,1194,0,
1165,1164,1195,0,
1167,1168,1196,0,
1170,1169,1197,0,
1178,0,1198,2,
1181,1180,1199,0,
1127,1179,1200,0,
1183,1153,1201,0,
1184,1182,1202,0,
1191,0,1203,2,
1184,0,1204,2,
1192,1187,1205,0,
1163,1193,1206,0,
1180,1184,1207,0,
1109,1187,1208,0,
1195,0,1209,2,
1194,0,1210,2,
1172,1187,1211,0,
1197,1196,1212,0,
1137,1187,1213,0,
1199,1200,1214,0,
1149,1200,1215,0,
1153,1199,1216,0,
1199,1184,1217,0,
1203,1187,1218,0,
1206,1114,1219,0,
1136,1205,1220,1,
1206,0,1221,2,
1092,1207,1222,0,
1204,1187,1223,0,
1208,0,1224,2,
1209,1187,1225,0,
1210,1187,1226,0,
1212,0,1227,2,
1139,1211,1228,1,
1207,0,1229,2,
1138,1213,1230,1,
1217,1127,1231,0,
1201,1214,1232,0,
1202,1214,1233,0,
1217,1154,1234,0,
1185,1214,1235,0,
1215,1186,1236,0,
1217,0,1237,2,
1135,1218,1238,1,
1219,0,1239,2,
1222,0,1240,2,
1224,1034,1241,1,
1171,1223,1242,1,
1221,1187,1243,0,
1140,1225,1244,1,
1141,1226,1245,1,
1229,1187,1246,0,
1227,1187,1247,0,
1222,1118,1248,0,
1220,1228,1249,0,
1230,0,1250,2,
1228,0,1251,2,
1234,0,1252,2,
1235,0,1253,2,
1236,1216,1254,0,
1232,0,1255,2,
1231,0,1256,2,
1233,0,1257,2,
1237,1187,1258,0,
1220,1238,1259,0,
1173,1243,1260,1,
1240,1187,1261,0,
1239,1187,1262,0,
1241,1242,1263,0,
1230,1244,1264,0,
1220,1245,1265,0,
1228,1238,1266,0,
1230,1245,1267,0,
1230,1242,1268,0,
1228,1244,1269,0,
1228,1245,1270,0,
1245,1242,1271,0,
1238,1244,1272,0,
1142,1246,1273,1,
1241,1244,1274,0,
1176,1247,1275,1,
1244,1242,1276,0,
1220,1242,1277,0,
1228,1242,1278,0,
1238,1245,1279,0,
1220,1244,1280,0,
1248,0,1281,2,
1245,1244,1282,0,
1238,1242,1283,0,
1242,0,1284,2,
1244,0,1285,2,
1245,0,1286,2,
1238,0,1287,2,
1228,1250,1288,1,
1220,1251,1289,1,
1241,0,1290,2,
1241,1250,1291,1,
1042,1241,1292,0,
1156,1233,1293,0,
1253,1187,1294,0,
1254,0,1295,2,
1255,1187,1296,0,
1257,1187,1297,0,
1256,1187,1298,0,
1252,1187,1299,0,
1160,1258,1300,1,
1259,0,1301,2,
1260,1244,1302,0,
1175,1262,1303,1,
1174,1261,1304,1,
1265,0,1305,2,
1241,1260,1306,0,
1260,1242,1307,0,
1238,1264,1308,1,
1266,0,1309,2,
1267,0,1310,2,
1274,0,1311,2,
1263,1259,1312,0,
1230,1260,1313,0,
1272,0,1314,2,
1238,1275,1315,0,
1228,1273,1316,0,
1230,1273,1317,0,
1271,0,1318,2,
1230,1275,1319,0,
1269,1241,1320,0,
1260,1238,1321,0,
1220,1273,1322,0,
1267,1241,1323,0,
1265,1241,1324,0,
1266,1267,1325,0,
1272,1230,1326,0,
1260,1245,1327,0,
1228,1260,1328,0,
1281,1187,1329,0,
1228,1275,1330,0,
1245,1275,1331,0,
1244,1275,1332,0,
1241,1275,1333,0,
1238,1273,1334,0,
1220,1275,1335,0,
1280,1241,1336,0,
1220,1260,1337,0,
1265,1268,1338,0,
1271,1230,1339,0,
1241,1273,1340,0,
1267,1260,1341,0,
1245,1273,1342,0,
1242,1275,1343,0,
1244,1273,1344,0,
1260,1275,1345,0,
1242,1273,1346,0,
1260,1273,1347,0,
1273,0,1348,2,
1275,0,1349,2,
1260,1284,1350,1,
1273,1275,1351,0,
1244,1284,1352,1,
1245,1285,1353,1,
1238,1286,1354,1,
1220,1287,1355,1,
1288,0,1356,2,
1289,0,1357,2,
1291,0,1358,2,
1291,1109,1359,0,
1042,1290,1360,0,
1293,1187,1361,0,
1157,1298,1362,1,
1295,1187,1363,0,
1190,1294,1364,1,
1188,1297,1365,1,
1189,1299,1366,1,
1158,1296,1367,1,
1300,0,1368,2,
1301,1263,1369,1,
1230,1304,1370,0,
1303,1245,1371,0,
1302,0,1372,2,
1309,1310,1373,0,
1230,1303,1374,0,
1308,0,1375,2,
1305,1268,1376,1,
1269,1306,1377,1,
1307,0,1378,2,
1220,1304,1379,0,
1318,1317,1380,1,
1312,0,1381,2,
1244,1319,1382,1,
1245,1313,1383,1,
1220,1303,1384,0,
1241,1303,1385,0,
1323,1238,1386,0,
1324,0,1387,2,
1303,1244,1388,0,
1320,1260,1389,0,
1228,1303,1390,0,
1228,1304,1391,0,
1302,1303,1392,0,
1303,1238,1393,0,
1332,0,1394,2,
1303,1242,1395,0,
1241,1304,1396,0,
1177,1329,1397,1,
1332,1230,1398,0,
1336,1303,1399,0,
1260,1303,1400,0,
1268,1304,1401,0,
1238,1304,1402,0,
1245,1304,1403,0,
1337,1304,1404,0,
1339,1273,1405,0,
1303,1275,1406,0,
1242,1304,1407,0,
1345,0,1408,2,
1303,1304,1409,0,
1244,1304,1410,0,
1303,1273,1411,0,
1304,1275,1412,0,
1345,1242,1413,0,
1273,1349,1414,0,
1348,1275,1415,0,
1260,1304,1416,0,
1273,1304,1417,1,
1303,1349,1418,1,
1303,0,1419,2,
1350,0,1420,2,
1351,0,1421,2,
1352,0,1422,2,
1353,0,1423,2,
1354,0,1424,2,
1348,1304,1425,0,
1273,1304,1426,0,
1355,0,1427,2,
1357,1288,1428,0,
1355,1356,1429,0,
1360,1358,1430,0,
1304,0,1431,2,
1358,1109,1432,0,
1361,0,1433,2,
1364,0,1434,2,
1367,0,1435,2,
1362,0,1436,2,
1365,0,1437,2,
1159,1363,1438,1,
1366,0,1439,2,
1362,1366,1440,0,
1364,1367,1441,0,
1365,1368,1442,0,
1369,0,1443,2,
1365,1300,1444,0,
1369,1270,1445,1,
1372,1371,1446,1,
1242,1370,1447,1,
1376,1377,1448,1,
1376,0,1449,2,
1314,1374,1450,1,
1373,0,1451,2,
1311,1373,1452,1,
1260,1378,1453,0,
1379,0,1454,2,
1383,1278,1455,1,
1382,1390,1456,1,
1380,0,1457,2,
1380,1321,1458,1,
1387,1301,1459,0,
1386,0,1460,2,
1389,0,1461,2,
1280,1385,1462,1,
1390,1382,1463,0,
1392,1245,1464,0,
1278,1383,1465,0,
1241,1397,1466,0,
1394,1395,1467,1,
1230,1397,1468,0,
1228,1397,1469,0,
1374,1272,1470,0,
1399,0,1471,2,
1400,0,1472,2,
1220,1397,1473,0,
1404,0,1474,2,
1403,0,1475,2,
1395,1332,1476,0,
1238,1397,1477,0,
1406,0,1478,2,
1407,0,1479,2,
1408,1346,1480,1,
1409,1245,1481,0,
1245,1397,1482,0,
1244,1397,1483,0,
1347,1397,1484,0,
1412,1242,1485,0,
1411,0,1486,2,
1397,0,1487,2,
1415,0,1488,2,
1414,0,1489,2,
1413,1273,1490,0,
1242,1397,1491,0,
1411,1304,1492,0,
1417,0,1493,2,
1409,0,1494,2,
1418,0,1495,2,
1260,1419,1496,1,
1260,1397,1497,0,
1418,1420,1498,0,
1414,1409,1499,0,
1303,1397,1500,0,
1412,0,1501,2,
1412,1397,1502,0,
1275,1397,1503,0,
1422,1354,1504,0,
1352,1424,1505,0,
1354,1423,1506,0,
1422,1424,1507,0,
1426,0,1508,2,
1427,1288,1509,0,
1273,1397,1510,0,
1427,1356,1511,0,
1429,0,1512,2,
1431,1397,1513,0,
1304,1397,1514,0,
1364,1435,1515,0,
1438,0,1516,2,
1437,1300,1517,0,
1434,1367,1518,0,
1436,1439,1519,0,
1436,1366,1520,0,
1437,1368,1521,0,
1362,1439,1522,0,
1434,1435,1523,0,
1441,1440,1524,0,
1444,1438,1525,0,
1270,1443,1526,0,
1442,1438,1527,0,
1447,1316,1528,1,
1446,1315,1529,1,
1445,1375,1530,1,
1448,1326,1531,1,
1452,1249,1532,1,
1249,1452,1533,0,
1274,1451,1534,0,
1454,1453,1535,1,
1450,1277,1536,1,
1449,1377,1537,0,
1457,1238,1538,0,
1450,0,1539,2,
1458,1384,1540,1,
1455,1279,1541,1,
1446,0,1542,2,
1458,0,1543,2,
1448,0,1544,2,
1456,1282,1545,1,
1445,0,1546,2,
1459,1460,1547,0,
1282,1456,1548,0,
1279,1455,1549,0,
1463,0,1550,2,
1464,0,1551,2,
1316,1447,1552,0,
1465,0,1553,2,
1467,1342,1554,1,
1303,1472,1555,0,
1467,0,1556,2,
1474,1378,1557,0,
1476,0,1558,2,
1275,1478,1559,0,
1480,1410,1560,1,
1481,0,1561,2,
1347,1483,1562,1,
1480,0,1563,2,
1484,1244,1564,0,
1486,1416,1565,1,
1485,0,1566,2,
1489,1488,1567,0,
1304,1487,1568,1,
1490,0,1569,2,
1492,1260,1570,0,
1495,1350,1571,0,
1493,0,1572,2,
1494,1414,1573,1,
1496,0,1574,2,
1495,1420,1575,0,
1499,0,1576,2,
1501,1500,1577,1,
1502,1303,1578,0,
1503,0,1579,2,
1504,1353,1580,0,
1498,0,1581,2,
1425,1503,1582,0,
1509,1289,1583,0,
1505,0,1584,2,
1507,0,1585,2,
1511,0,1586,2,
1514,0,1587,2,
1515,1440,1588,0,
1521,1516,1589,0,
1517,1438,1590,0,
1518,1519,1591,0,
1518,1522,1592,0,
1521,1438,1593,0,
1517,1516,1594,0,
1519,1515,1595,0,
1518,1520,1596,0,
1520,1523,1597,0,
1523,1440,1598,0,
1442,1516,1599,0,
1522,1515,1600,0,
1519,1523,1601,0,
1441,1522,1602,0,
1444,1516,1603,0,
1518,1440,1604,0,
1523,1522,1605,0,
1441,1520,1606,0,
1441,1519,1607,0,
1526,0,1608,2,
1520,1515,1609,0,
1530,1325,1610,1,
1528,1276,1611,1,
1527,1524,1612,0,
1529,0,1613,2,
1525,1524,1614,0,
1529,1322,1615,1,
1532,0,1616,2,
1534,0,1617,2,
1533,0,1618,2,
1535,1388,1619,1,
1537,0,1620,2,
1531,0,1621,2,
1536,1328,1622,1,
1536,0,1623,2,
1315,1542,1624,0,
1546,1308,1625,0,
1540,1330,1626,1,
1545,1283,1627,1,
1384,1543,1628,0,
1541,1462,1629,1,
1326,1544,1630,0,
1325,1530,1631,0,
1538,1260,1632,0,
1539,1242,1633,0,
1547,0,1634,2,
1541,1462,1635,0,
1548,0,1636,2,
1276,1528,1637,0,
1549,0,1638,2,
1552,0,1639,2,
1540,0,1640,2,
1535,0,1641,2,
1283,1545,1642,0,
1554,1402,1643,1,
1554,0,1644,2,
1475,1555,1645,1,
1342,1556,1646,0,
1557,0,1647,2,
1479,1559,1648,1,
1561,1472,1649,0,
1560,0,1650,2,
1560,1482,1651,1,
1564,0,1652,2,
1410,1563,1653,0,
1565,0,1654,2,
1565,1491,1655,1,
1566,1478,1656,0,
1567,0,1657,2,
1568,0,1658,2,
1570,0,1659,2,
1567,1572,1660,0,
1567,1493,1661,0,
1573,1497,1662,1,
1571,1496,1663,0,
1350,1574,1664,0,
1573,0,1665,2,
1421,1576,1666,0,
1577,0,1667,2,
1578,0,1668,2,
1579,1425,1669,1,
1575,0,1670,2,
1582,0,1671,2,
1585,1584,1672,0,
1512,1586,1673,0,
1591,1589,1674,0,
1590,1588,1675,0,
1589,1592,1676,0,
1596,1593,1677,0,
1595,1594,1678,0,
1604,1599,1679,0,
1603,1588,1680,0,
1527,1601,1681,0,
1525,1606,1682,0,
1603,1598,1683,0,
1603,1592,1684,0,
1596,1594,1685,0,
1597,1594,1686,0,
1595,1589,1687,0,
1525,1601,1688,0,
1602,1590,1689,0,
1604,1590,1690,0,
1593,1588,1691,0,
1591,1590,1692,0,
1595,1590,1693,0,
1606,1589,1694,0,
1606,1590,1695,0,
1607,1593,1696,0,
1600,1593,1697,0,
1527,1595,1698,0,
1596,1590,1699,0,
1590,1600,1700,0,
1527,1591,1701,0,
1525,1600,1702,0,
1600,1599,1703,0,
1527,1597,1704,0,
1594,1605,1705,0,
1603,1602,1706,0,
1594,1588,1707,0,
1599,1601,1708,0,
1524,1589,1709,0,
1595,1599,1710,0,
1603,1524,1711,0,
1527,1605,1712,0,
1592,1594,1713,0,
1524,1590,1714,0,
1603,1606,1715,0,
1591,1599,1716,0,
1603,1591,1717,0,
1591,1594,1718,0,
1525,1597,1719,0,
1589,1609,1720,0,
1527,1606,1721,0,
1606,1599,1722,0,
1603,1601,1723,0,
1527,1602,1724,0,
1592,1599,1725,0,
1524,1599,1726,0,
1608,1381,1727,0,
1589,1588,1728,0,
1601,1594,1729,0,
1589,1601,1730,0,
1602,1599,1731,0,
1604,1594,1732,0,
1597,1599,1733,0,
1603,1595,1734,0,
1603,1600,1735,0,
1527,1592,1736,0,
1527,1609,1737,0,
1525,1591,1738,0,
1609,1593,1739,0,
1602,1593,1740,0,
1527,1607,1741,0,
1525,1598,1742,0,
1525,1592,1743,0,
1527,1588,1744,0,
1525,1609,1745,0,
1525,1604,1746,0,
1609,1590,1747,0,
1606,1593,1748,0,
1524,1593,1749,0,
1605,1593,1750,0,
1590,1601,1751,0,
1524,1594,1752,0,
1602,1594,1753,0,
1607,1590,1754,0,
1591,1593,1755,0,
1597,1590,1756,0,
1598,1593,1757,0,
1590,1605,1758,0,
1597,1593,1759,0,
1595,1593,1760,0,
1603,1609,1761,0,
1603,1607,1762,0,
1597,1589,1763,0,
1602,1589,1764,0,
1607,1594,1765,0,
1606,1594,1766,0,
1603,1596,1767,0,
1599,1605,1768,0,
1613,1273,1769,0,
1598,1594,1770,0,
1609,1594,1771,0,
1610,0,1772,2,
1615,0,1773,2,
1527,1596,1774,0,
1525,1607,1775,0,
1596,1599,1776,0,
1598,1599,1777,0,
1604,1593,1778,0,
1592,1593,1779,0,
1607,1589,1780,0,
1611,1327,1781,1,
1603,1597,1782,0,
1614,0,1783,2,
1612,0,1784,2,
1589,1600,1785,0,
1527,1604,1786,0,
1598,1590,1787,0,
1525,1596,1788,0,
1527,1600,1789,0,
1598,1589,1790,0,
1619,1331,1791,1,
1622,1333,1792,1,
1600,1594,1793,0,
1622,0,1794,2,
1617,1618,1795,0,
1603,1604,1796,0,
1589,1605,1797,0,
1620,1461,1798,0,
1609,1599,1799,0,
1601,1593,1800,0,
1626,1396,1801,1,
1632,0,1802,2,
1631,0,1803,2,
1630,0,1804,2,
1603,1605,1805,0,
1628,0,1806,2,
1525,1602,1807,0,
1633,1220,1808,0,
1629,1338,1809,1,
1328,1623,1810,0,
1627,1337,1811,1,
1625,0,1812,2,
1327,1611,1813,0,
1592,1590,1814,0,
1624,0,1815,2,
1615,1391,1816,1,
1599,1588,1817,0,
1637,0,1818,2,
1636,1550,1819,0,
1532,1634,1820,0,
1635,0,1821,2,
1619,0,1822,2,
1338,1629,1823,0,
1337,1627,1824,0,
1638,1553,1825,0,
1640,1275,1826,0,
1626,0,1827,2,
1388,1641,1828,0,
1642,0,1829,2,
1643,1473,1830,1,
1596,1589,1831,0,
1645,1343,1832,1,
1643,0,1833,2,
1525,1605,1834,0,
1644,1238,1835,0,
1527,1598,1836,0,
1604,1589,1837,0,
1607,1599,1838,0,
1646,0,1839,2,
1645,0,1840,2,
1525,1588,1841,0,
1648,0,1842,2,
1650,1397,1843,0,
1649,0,1844,2,
1651,0,1845,2,
1651,1649,1846,1,
1653,0,1847,2,
1655,1656,1848,1,
1648,1562,1849,1,
1491,1654,1850,0,
1656,0,1851,2,
1655,0,1852,2,
1568,1657,1853,0,
1657,1658,1854,0,
1661,1658,1855,0,
1525,1595,1856,0,
1665,1397,1857,0,
1662,0,1858,2,
1666,0,1859,2,
1577,1666,1860,1,
1669,0,1861,2,
1670,1581,1862,0,
1508,1671,1863,0,
1672,0,1864,2,
1673,0,1865,2,
1590,0,1866,2,
1674,0,1867,2,
1675,0,1868,2,
1677,0,1869,2,
1676,0,1870,2,
1678,0,1871,2,
1711,0,1872,2,
1703,0,1873,2,
1704,0,1874,2,
1710,0,1875,2,
1708,0,1876,2,
1713,0,1877,2,
1712,0,1878,2,
1679,0,1879,2,
1682,0,1880,2,
1688,0,1881,2,
1681,0,1882,2,
1706,0,1883,2,
1707,0,1884,2,
1705,0,1885,2,
1709,0,1886,2,
1702,0,1887,2,
1701,0,1888,2,
1700,0,1889,2,
1692,0,1890,2,
1691,0,1891,2,
1699,0,1892,2,
1697,0,1893,2,
1698,0,1894,2,
1694,0,1895,2,
1693,0,1896,2,
1695,0,1897,2,
1690,0,1898,2,
1689,0,1899,2,
1696,0,1900,2,
1687,0,1901,2,
1686,0,1902,2,
1685,0,1903,2,
1684,0,1904,2,
1683,0,1905,2,
1680,0,1906,2,
1753,0,1907,2,
1752,0,1908,2,
1749,0,1909,2,
1750,0,1910,2,
1758,0,1911,2,
1751,0,1912,2,
1748,0,1913,2,
1724,0,1914,2,
1720,0,1915,2,
1761,0,1916,2,
1723,0,1917,2,
1722,0,1918,2,
1763,0,1919,2,
1718,0,1920,2,
1721,0,1921,2,
1719,0,1922,2,
1738,0,1923,2,
1744,0,1924,2,
1746,0,1925,2,
1745,0,1926,2,
1736,0,1927,2,
1742,0,1928,2,
1743,0,1929,2,
1741,0,1930,2,
1756,0,1931,2,
1754,0,1932,2,
1757,0,1933,2,
1759,0,1934,2,
1760,0,1935,2,
1740,0,1936,2,
1737,0,1937,2,
1739,0,1938,2,
1755,0,1939,2,
1747,0,1940,2,
1730,0,1941,2,
1716,0,1942,2,
1762,0,1943,2,
1715,0,1944,2,
1735,0,1945,2,
1717,0,1946,2,
1734,0,1947,2,
1732,0,1948,2,
1733,0,1949,2,
1727,0,1950,2,
1731,0,1951,2,
1728,0,1952,2,
1729,0,1953,2,
1714,0,1954,2,
1726,0,1955,2,
1725,0,1956,2,
1782,0,1957,2,
1777,0,1958,2,
1781,1393,1959,1,
1774,0,1960,2,
1778,0,1961,2,
1779,0,1962,2,
1780,0,1963,2,
1770,0,1964,2,
1771,0,1965,2,
1767,0,1966,2,
1391,1773,1967,0,
1785,0,1968,2,
1768,0,1969,2,
1769,1220,1970,0,
1765,0,1971,2,
1775,0,1972,2,
1766,0,1973,2,
1776,0,1974,2,
1772,1616,1975,0,
1764,0,1976,2,
1786,0,1977,2,
1772,1387,1978,0,
1794,1241,1979,0,
1795,0,1980,2,
1788,0,1981,2,
1792,0,1982,2,
1798,0,1983,2,
1800,0,1984,2,
1393,1781,1985,0,
1796,0,1986,2,
1787,0,1987,2,
1791,1334,1988,1,
1790,0,1989,2,
1797,0,1990,2,
1793,0,1991,2,
1789,0,1992,2,
1799,0,1993,2,
1801,1398,1994,1,
1807,0,1995,2,
1816,1468,1996,1,
1809,1798,1997,1,
1815,1551,1998,0,
1806,1802,1999,0,
1817,0,2000,2,
1811,1340,2001,1,
1805,0,2002,2,
1814,0,2003,2,
1812,1803,2004,0,
1808,0,2005,2,
1813,0,2006,2,
1810,0,2007,2,
1818,1639,2008,0,
1331,1822,2009,0,
1821,1471,2010,0,
1792,1341,2011,1,
1823,0,2012,2,
1791,0,2013,2,
1819,0,2014,2,
1801,0,2015,2,
1816,0,2016,2,
1820,1610,2017,0,
1340,1811,2018,0,
1396,1827,2019,0,
1828,0,2020,2,
1824,0,2021,2,
1826,1228,2022,0,
1825,0,2023,2,
1830,1557,2024,1,
1831,0,2025,2,
1832,1344,2026,1,
1835,1304,2027,0,
1830,0,2028,2,
1834,0,2029,2,
1473,1833,2030,0,
1836,0,2031,2,
1839,1558,2032,0,
1783,1784,2033,0,
1832,0,2034,2,
1837,0,2035,2,
1838,0,2036,2,
1343,1840,2037,0,
1841,0,2038,2,
1842,1562,2039,0,
1843,1245,2040,0,
1845,1844,2041,0,
1847,1569,2042,0,
1849,0,2043,2,
1852,1851,2044,0,
1850,0,2045,2,
1853,0,2046,2,
1854,0,2047,2,
1856,0,2048,2,
1857,1260,2049,0,
1667,1859,2050,0,
1862,0,2051,2,
1863,0,2052,2,
1868,1867,2053,0,
1871,1870,2054,0,
1869,1868,2055,0,
1875,1873,2056,0,
1885,1891,2057,0,
1880,1884,2058,0,
1882,1872,2059,0,
1889,1876,2060,0,
1883,1904,2061,0,
1897,1893,2062,0,
1887,1906,2063,0,
1874,1905,2064,0,
1898,1877,2065,0,
1899,1903,2066,0,
1895,1871,2067,0,
1900,1901,2068,0,
1894,1878,2069,0,
1886,1896,2070,0,
1892,1890,2071,0,
1879,1881,2072,0,
1888,1902,2073,0,
1933,1954,2074,0,
1944,1914,2075,0,
1924,1926,2076,0,
1918,1948,2077,0,
1920,1949,2078,0,
1946,1915,2079,0,
1922,1916,2080,0,
1919,1910,2081,0,
1928,1943,2082,0,
1955,1939,2083,0,
1894,1956,2084,0,
1945,1947,2085,0,
1929,1913,2086,0,
1937,1927,2087,0,
1940,1870,2088,0,
1917,1877,2089,0,
1925,1936,2090,0,
1951,1783,2091,0,
1904,1885,2092,0,
1912,1895,2093,0,
1921,1784,2094,0,
1911,1931,2095,0,
1909,1870,2096,0,
1927,1932,2097,0,
1952,1948,2098,0,
1930,1899,2099,0,
1621,1950,2100,0,
1890,1965,2101,0,
1975,0,2102,2,
1939,1968,2103,0,
1959,1335,2104,1,
1963,1953,2105,0,
1972,1958,2106,0,
1969,1901,2107,0,
1924,1965,2108,0,
1951,1883,2109,0,
1961,1957,2110,0,
1879,1962,2111,0,
1952,1935,2112,0,
1967,0,2113,2,
1970,0,2114,2,
1884,1958,2115,0,
1925,1909,2116,0,
1944,1942,2117,0,
1937,1946,2118,0,
1974,1966,2119,0,
1875,1991,2120,0,
1992,1889,2121,0,
1978,0,2122,2,
1966,1904,2123,0,
1929,1992,2124,0,
1977,1915,2125,0,
1990,1989,2126,0,
1809,1983,2127,0,
1950,1621,2128,1,
1915,1884,2129,0,
1932,1910,2130,0,
1988,1469,2131,1,
1981,1905,2132,0,
1341,1982,2133,0,
1979,1275,2134,0,
1949,1889,2135,0,
1948,1899,2136,0,
1985,0,2137,2,
1888,1984,2138,0,
1911,1993,2139,0,
1872,1969,2140,0,
1996,1401,2141,1,
2007,2005,2142,0,
1882,1881,2143,0,
1988,0,2144,2,
1999,0,2145,2,
1998,0,2146,2,
1994,0,2147,2,
2001,1470,2148,1,
2000,2003,2149,0,
1871,1903,2150,0,
1936,1907,2151,0,
1955,1995,2152,0,
1918,1964,2153,0,
2004,0,2154,2,
2011,1825,2155,1,
1334,2013,2156,0,
1973,1892,2157,0,
1335,1959,2158,0,
1470,2001,2159,0,
1398,2015,2160,0,
2016,1230,2161,0,
2009,0,2162,2,
2010,0,2163,2,
2017,0,2164,2,
2011,0,2165,2,
1996,0,2166,2,
2008,0,2167,2,
1997,0,2168,2,
2021,1829,2169,0,
1918,1966,2170,0,
2018,0,2171,2,
2022,0,2172,2,
2019,0,2173,2,
1994,1819,2174,1,
1947,1993,2175,0,
1961,1898,2176,0,
1902,1936,2177,0,
1917,1913,2178,0,
1872,1915,2179,0,
1869,1867,2180,0,
1981,2025,2181,0,
2026,1477,2182,1,
1880,1897,2183,0,
1924,1896,2184,0,
2030,0,2185,2,
2028,1647,2186,0,
2027,0,2187,2,
2031,2029,2188,0,
1899,1909,2189,0,
1986,1974,2190,0,
1887,1976,2191,0,
2000,1964,2192,0,
1951,1906,2193,0,
1935,1891,2194,0,
1977,1945,2195,0,
1991,1903,2196,0,
2026,0,2197,2,
2032,0,2198,2,
1344,2034,2199,0,
1924,1869,2200,0,
2035,1987,2201,0,
1904,1891,2202,0,
1905,1949,2203,0,
1925,1912,2204,0,
1879,1889,2205,0,
2036,1881,2206,0,
1886,1877,2207,0,
1912,1936,2208,0,
1973,1958,2209,0,
2037,0,2210,2,
1877,1901,2211,0,
1944,1885,2212,0,
1923,1897,2213,0,
2038,1946,2214,0,
1918,1877,2215,0,
1981,1886,2216,0,
1957,2002,2217,0,
1926,1783,2218,0,
1976,1876,2219,0,
1879,1940,2220,0,
1971,1895,2221,0,
1894,1932,2222,0,
1968,1870,2223,0,
1928,1874,2224,0,
2039,0,2225,2,
1883,1887,2226,0,
1943,1900,2227,0,
2041,0,2228,2,
2002,1909,2229,0,
1888,1898,2230,0,
2040,0,2231,2,
1872,1949,2232,0,
1939,1948,2233,0,
1902,1987,2234,0,
1989,2002,2235,0,
1945,1919,2236,0,
1911,1974,2237,0,
1906,1895,2238,0,
1883,1935,2239,0,
1957,1991,2240,0,
1849,2042,2241,1,
2042,0,2242,2,
1930,1972,2243,0,
1944,1913,2244,0,
1938,1885,2245,0,
1918,1969,2246,0,
1971,1885,2247,0,
1943,1960,2248,0,
2025,1990,2249,0,
1946,1909,2250,0,
2045,1659,2251,0,
1879,1912,2252,0,
1875,1995,2253,0,
2044,0,2254,2,
1928,1923,2255,0,
1926,1869,2256,0,
1927,1956,2257,0,
2003,1891,2258,0,
1784,1903,2259,0,
1966,1784,2260,0,
1917,1969,2261,0,
1932,1948,2262,0,
1954,1976,2263,0,
2036,1987,2264,0,
1880,1898,2265,0,
1902,1898,2266,0,
1974,1905,2267,0,
1904,1941,2268,0,
2029,1947,2269,0,
1951,1890,2270,0,
1943,2003,2271,0,
1888,1910,2272,0,
1877,1909,2273,0,
1956,1919,2274,0,
1873,1934,2275,0,
1986,1905,2276,0,
1916,1914,2277,0,
1922,1907,2278,0,
1929,1920,2279,0,
1986,1961,2280,0,
1929,1915,2281,0,
1912,1890,2282,0,
1908,1938,2283,0,
1875,1940,2284,0,
1971,1910,2285,0,
1951,1911,2286,0,
1925,1977,2287,0,
1932,1945,2288,0,
1930,1947,2289,0,
2038,1890,2290,0,
2031,1957,2291,0,
2036,1931,2292,0,
1952,1907,2293,0,
1893,1919,2294,0,
1917,1919,2295,0,
1956,1877,2296,0,
1955,1973,2297,0,
1926,1938,2298,0,
1906,1898,2299,0,
1977,1871,2300,0,
1974,1933,2301,0,
1937,1909,2302,0,
2002,1891,2303,0,
1958,1899,2304,0,
1908,1903,2305,0,
1995,1953,2306,0,
1934,1920,2307,0,
1930,1921,2308,0,
1880,1972,2309,0,
2046,2047,2310,0,
2038,1881,2311,0,
1992,2003,2312,0,
1995,1958,2313,0,
1932,2000,2314,0,
1984,1900,2315,0,
1960,1968,2316,0,
1981,1900,2317,0,
1943,2031,2318,0,
1880,1921,2319,0,
1936,1899,2320,0,
1886,1908,2321,0,
1922,1993,2322,0,
2048,1873,2323,0,
1925,1884,2324,0,
1984,1973,2325,0,
1894,1891,2326,0,
1992,1916,2327,0,
1871,1948,2328,0,
1902,1915,2329,0,
1963,1954,2330,0,
1932,1922,2331,0,
1931,1886,2332,0,
2038,1897,2333,0,
2000,1917,2334,0,
1914,1933,2335,0,
1986,1990,2336,0,
1961,1940,2337,0,
1939,1991,2338,0,
1882,1955,2339,0,
1879,1901,2340,0,
1954,1876,2341,0,
1929,1930,2342,0,
1941,1953,2343,0,
1937,2002,2344,0,
1874,2000,2345,0,
1961,1973,2346,0,
1951,1974,2347,0,
1986,1936,2348,0,
2049,0,2349,2,
1963,1885,2350,0,
1923,1924,2351,0,
1947,2035,2352,0,
1984,1884,2353,0,
1993,1893,2354,0,
1944,1995,2355,0,
1963,1934,2356,0,
1942,1990,2357,0,
1956,1908,2358,0,
1896,1910,2359,0,
1874,1931,2360,0,
1952,1909,2361,0,
1888,1867,2362,0,
1993,1952,2363,0,
2003,1907,2364,0,
1882,1922,2365,0,
1933,1867,2366,0,
1928,1867,2367,0,
1928,1987,2368,0,
1927,1995,2369,0,
1986,1926,2370,0,
1872,1957,2371,0,
1990,1867,2372,0,
1880,1919,2373,0,
1937,1936,2374,0,
1881,1940,2375,0,
1922,1887,2376,0,
1977,1906,2377,0,
1926,1881,2378,0,
1933,1898,2379,0,
1981,1783,2380,0,
1951,1915,2381,0,
1971,1941,2382,0,
2050,0,2383,2,
1974,2036,2384,0,
1875,1923,2385,0,
1981,1960,2386,0,
1905,1917,2387,0,
1869,1912,2388,0,
1977,1900,2389,0,
1960,1868,2390,0,
1932,1897,2391,0,
1878,1783,2392,0,
1947,1901,2393,0,
1928,1894,2394,0,
1879,1919,2395,0,
1992,1930,2396,0,
1928,1882,2397,0,
2038,1908,2398,0,
2035,1969,2399,0,
1894,1944,2400,0,
1880,2029,2401,0,
1887,1914,2402,0,
1874,1908,2403,0,
1981,1965,2404,0,
1939,1896,2405,0,
1883,1933,2406,0,
1956,1886,2407,0,
1995,1940,2408,0,
1957,1962,2409,0,
1942,2031,2410,0,
1913,1952,2411,0,
1873,1872,2412,0,
1984,1976,2413,0,
1883,1912,2414,0,
1972,1934,2415,0,
1914,1896,2416,0,
1931,1867,2417,0,
1973,1895,2418,0,
1990,1901,2419,0,
1960,1953,2420,0,
1993,1913,2421,0,
1872,1902,2422,0,
1929,1888,2423,0,
1942,2048,2424,0,
1926,1953,2425,0,
1984,1890,2426,0,
1886,1905,2427,0,
1914,1957,2428,0,
1946,1968,2429,0,
1892,1958,2430,0,
1916,2000,2431,0,
1938,1889,2432,0,
1890,1891,2433,0,
1940,1962,2434,0,
1929,1995,2435,0,
1918,1895,2436,0,
1894,2031,2437,0,
1939,1949,2438,0,
1934,1876,2439,0,
2052,1510,2440,1,
1963,2035,2441,0,
1933,1934,2442,0,
1510,2052,2443,0,
1878,1914,2444,0,
1986,1879,2445,0,
1944,1918,2446,0,
1925,1955,2447,0,
1931,1987,2448,0,
1877,1920,2449,0,
1925,1995,2450,0,
1872,1962,2451,0,
2048,1990,2452,0,
1937,1889,2453,0,
1783,1877,2454,0,
1947,2000,2455,0,
1922,1874,2456,0,
1960,1917,2457,0,
1894,1965,2458,0,
1921,1913,2459,0,
1915,1899,2460,0,
1911,1973,2461,0,
1906,1890,2462,0,
1919,1901,2463,0,
1897,1868,2464,0,
1941,1868,2465,0,
1932,1964,2466,0,
1958,2003,2467,0,
1916,1902,2468,0,
1867,1896,2469,0,
1922,1897,2470,0,
1924,1972,2471,0,
1900,1949,2472,0,
1929,2048,2473,0,
1894,2036,2474,0,
1958,1935,2475,0,
2002,1884,2476,0,
1969,1936,2477,0,
1868,1954,2478,0,
1976,1935,2479,0,
1951,1964,2480,0,
1904,1903,2481,0,
1906,1964,2482,0,
1974,1989,2483,0,
1928,2031,2484,0,
1924,1890,2485,0,
1939,1891,2486,0,
1966,1915,2487,0,
1922,1920,2488,0,
1888,1912,2489,0,
1960,1893,2490,0,
2038,1977,2491,0,
1927,2000,2492,0,
2036,2029,2493,0,
1986,1881,2494,0,
1928,2048,2495,0,
1968,1892,2496,0,
1992,1991,2497,0,
1895,1898,2498,0,
2003,1889,2499,0,
1894,1993,2500,0,
1955,1966,2501,0,
1944,1869,2502,0,
1875,1943,2503,0,
1916,1987,2504,0,
1930,2029,2505,0,
2038,1947,2506,0,
2033,1872,2507,0,
1957,1890,2508,0,
1940,1900,2509,0,
1963,1905,2510,0,
1927,1929,2511,0,
2029,1964,2512,0,
1981,1958,2513,0,
1946,1949,2514,0,
1923,1908,2515,0,
1874,1945,2516,0,
1995,1969,2517,0,
1932,1916,2518,0,
1927,1977,2519,0,
1888,1890,2520,0,
1937,1977,2521,0,
1874,1914,2522,0,
2029,1876,2523,0,
1925,1915,2524,0,
1945,1871,2525,0,
2148,2142,2526,1,
2054,2055,2527,0,
2064,1941,2528,0,
2061,1942,2529,0,
2063,1921,2530,0,
2068,1907,2531,0,
2058,2062,2532,0,
2067,1934,2533,0,
2060,1938,2534,0,
2071,2070,2535,0,
2072,1956,2536,0,
2069,1923,2537,0,
2073,2053,2538,0,
2057,1953,2539,0,
2065,1908,2540,0,
2059,2056,2541,0,
2066,1935,2542,0,
2096,2078,2543,0,
2099,2094,2544,0,
2074,2080,2545,0,
2092,1869,2546,0,
2098,1964,2547,0,
2097,1938,2548,0,
2100,0,2549,2,
2095,1973,2550,0,
2090,2089,2551,0,
2088,1906,2552,0,
2082,2077,2553,0,
2079,1971,2554,0,
2085,2093,2555,0,
2075,1960,2556,0,
2084,2076,2557,0,
2086,2491,2558,0,
2118,2116,2559,0,
2106,2119,2560,0,
2113,2114,2561,0,
2117,2101,2562,0,
2115,2112,2563,0,
2102,1980,2564,0,
2110,2107,2565,0,
2111,2109,2566,0,
2105,1878,2567,0,
2104,1466,2568,1,
2127,0,2569,2,
2134,0,2570,2,
2133,0,2571,2,
2130,1913,2572,0,
2129,1902,2573,0,
2121,1984,2574,0,
2131,1998,2575,1,
2131,0,2576,2,
2509,2103,2577,0,
2120,1927,2578,0,
2136,1891,2579,0,
2124,2123,2580,0,
2128,0,2581,2,
2140,2138,2582,0,
2125,2002,2583,0,
2132,1783,2584,0,
2135,1965,2585,0,
2137,2006,2586,0,
2141,2008,2587,1,
2085,1912,2588,0,
1466,2104,2589,0,
1469,2144,2590,0,
2147,2014,2591,0,
2153,2151,2592,0,
2141,0,2593,2,
2128,2154,2594,0,
2010,2155,2595,1,
2165,2023,2596,0,
2161,1397,2597,0,
2158,0,2598,2,
2142,0,2599,2,
1401,2166,2600,0,
2155,2163,2601,0,
2156,0,2602,2,
2159,0,2603,2,
2160,0,2604,2,
2162,2020,2605,0,
2170,1945,2606,0,
2173,2172,2607,0,
2174,2169,2608,1,
2098,2177,2609,0,
2169,0,2610,2,
2178,1914,2611,0,
2058,2176,2612,0,
2175,1873,2613,0,
2087,2157,2614,0,
2179,2101,2615,0,
2181,1984,2616,0,
2184,2183,2617,0,
2194,1934,2618,0,
2186,0,2619,2,
2182,0,2620,2,
2185,2187,2621,0,
2182,2032,2622,1,
2192,1962,2623,0,
2190,2191,2624,0,
2193,1919,2625,0,
2189,2033,2626,0,
2205,1944,2627,0,
2195,2029,2628,0,
2206,1966,2629,0,
1477,2197,2630,0,
2202,2204,2631,0,
2196,1945,2632,0,
2199,0,2633,2,
2200,2201,2634,0,
2208,1926,2635,0,
2140,1995,2636,0,
2214,1942,2637,0,
2211,1904,2638,0,
2212,1971,2639,0,
2209,1902,2640,0,
2218,1972,2641,0,
2216,1989,2642,0,
2220,1868,2643,0,
2219,2181,2644,0,
2224,2029,2645,0,
2222,1895,2646,0,
2225,1652,2647,0,
2223,1890,2648,0,
2226,1925,2649,0,
2087,2211,2650,0,
2181,2321,2651,0,
2227,1784,2652,0,
2229,2230,2653,0,
2228,2231,2654,0,
2232,1911,2655,0,
2062,2235,2656,0,
2233,1884,2657,0,
2043,2242,2658,0,
2243,2003,2659,0,
2248,2244,2660,0,
2238,2239,2661,0,
2246,2247,2662,0,
2106,2000,2663,0,
2062,1918,2664,0,
2263,2139,2665,0,
2259,1962,2666,0,
2261,1900,2667,0,
1662,2251,2668,1,
2258,1935,2669,0,
2260,1961,2670,0,
2256,2255,2671,0,
2250,1937,2672,0,
2262,1956,2673,0,
2252,2035,2674,0,
2087,2067,2675,0,
2275,1989,2676,0,
2219,1930,2677,0,
2277,1984,2678,0,
2268,1991,2679,0,
2271,2273,2680,0,
2251,0,2681,2,
2276,1926,2682,0,
2117,1873,2683,0,
2274,1893,2684,0,
2265,2264,2685,0,
2266,1893,2686,0,
2272,2031,2687,0,
2268,2069,2688,0,
2302,2271,2689,0,
2286,1890,2690,0,
2301,2303,2691,0,
2203,2206,2692,0,
2288,1963,2693,0,
2300,2299,2694,0,
2296,2294,2695,0,
2297,1913,2696,0,
2282,2298,2697,0,
2278,2058,2698,0,
2279,1928,2699,0,
2291,1946,2700,0,
2284,1900,2701,0,
2289,2290,2702,0,
2322,2323,2703,0,
2312,2311,2704,0,
2319,2316,2705,0,
2315,1882,2706,0,
2314,1963,2707,0,
2117,2305,2708,0,
2117,1946,2709,0,
2092,1925,2710,0,
2324,2325,2711,0,
2310,0,2712,2,
2261,2285,2713,0,
2320,1935,2714,0,
2176,1896,2715,0,
2226,1889,2716,0,
2307,1868,2717,0,
2308,2321,2718,0,
2317,1895,2719,0,
2304,2036,2720,0,
2119,2157,2721,0,
2346,1783,2722,0,
2347,1933,2723,0,
2338,1958,2724,0,
2345,2035,2725,0,
2328,2336,2726,0,
2085,1884,2727,0,
2327,1931,2728,0,
2326,2031,2729,0,
2335,2025,2730,0,
2343,2109,2731,0,
2329,2332,2732,0,
2337,1879,2733,0,
2342,1954,2734,0,
2358,1893,2735,0,
2268,2359,2736,0,
2366,2048,2737,0,
2364,1876,2738,0,
2361,1989,2739,0,
2367,1971,2740,0,
2365,1960,2741,0,
2217,1954,2742,0,
2321,1948,2743,0,
2321,2214,2744,0,
2355,1963,2745,0,
2350,2029,2746,0,
2354,2351,2747,0,
2318,1977,2748,0,
2263,2055,2749,0,
2353,1962,2750,0,
2356,2035,2751,0,
2320,2176,2752,0,
2371,1947,2753,0,
2372,2048,2754,0,
2386,1928,2755,0,
2370,2373,2756,0,
2377,2379,2757,0,
2387,2382,2758,0,
2389,1905,2759,0,
2381,1993,2760,0,
2380,1919,2761,0,
2374,1944,2762,0,
2376,2048,2763,0,
2383,1668,2764,0,
2375,2048,2765,0,
2140,1949,2766,0,
2378,1886,2767,0,
2403,2402,2768,0,
2396,1896,2769,0,
2406,2153,2770,0,
2339,1784,2771,0,
2395,1887,2772,0,
2400,2299,2773,0,
2392,1971,2774,0,
2393,1917,2775,0,
2398,1957,2776,0,
2362,1952,2777,0,
2397,2025,2778,0,
2321,2056,2779,0,
2092,1946,2780,0,
2054,2120,2781,0,
2409,1972,2782,0,
2416,2417,2783,0,
2414,2415,2784,0,
2411,2410,2785,0,
2420,2357,2786,0,
2058,1909,2787,0,
2055,2003,2788,0,
2422,1917,2789,0,
2425,1974,2790,0,
2063,1992,2791,0,
2261,2203,2792,0,
2429,2428,2793,0,
2430,1876,2794,0,
2433,2432,2795,0,
2359,1911,2796,0,
2435,1951,2797,0,
2059,2206,2798,0,
2438,1882,2799,0,
2439,1898,2800,0,
2119,1888,2801,0,
2437,2025,2802,0,
2446,2243,2803,0,
2445,1923,2804,0,
2443,0,2805,2,
2293,1915,2806,0,
2450,1907,2807,0,
2451,1938,2808,0,
2449,2025,2809,0,
2453,2452,2810,0,
2454,1956,2811,0,
2455,1972,2812,0,
2456,2401,2813,0,
2458,1923,2814,0,
2459,2420,2815,0,
2461,1926,2816,0,
2460,1889,2817,0,
2103,1888,2818,0,
2462,1938,2819,0,
2466,1954,2820,0,
2465,1990,2821,0,
2467,1913,2822,0,
2468,2000,2823,0,
2472,2471,2824,0,
2470,1990,2825,0,
2359,2240,2826,0,
2475,2476,2827,0,
2478,2201,2828,0,
2479,1922,2829,0,
2468,1943,2830,0,
2318,2243,2831,0,
2480,1956,2832,0,
2354,1892,2833,0,
2482,2483,2834,0,
2337,1933,2835,0,
2215,1878,2836,0,
2486,2485,2837,0,
2488,1867,2838,0,
2487,1965,2839,0,
2489,1898,2840,0,
2054,1948,2841,0,
2139,2235,2842,0,
2493,2035,2843,0,
2492,2491,2844,0,
2494,1917,2845,0,
2496,1905,2846,0,
2499,1942,2847,0,
2138,2000,2848,0,
2502,1987,2849,0,
2501,1879,2850,0,
2503,1910,2851,0,
2506,2120,2852,0,
2507,1942,2853,0,
2511,1991,2854,0,
2513,1938,2855,0,
2053,2029,2856,0,
2514,1924,2857,0,
2515,2029,2858,0,
2069,2062,2859,0,
2518,2025,2860,0,
2519,1936,2861,0,
2517,1971,2862,0,
2522,1931,2863,0,
2521,2520,2864,0,
2524,1955,2865,0,
2523,2036,2866,0,
2354,1958,2867,0,
2571,2570,2868,0,
2539,2534,2869,0,
2541,2535,2870,0,
2091,2537,2871,0,
2530,2083,2872,0,
2533,1976,2873,0,
2531,2081,2874,0,
2532,2087,2875,0,
2542,2540,2876,0,
2538,2536,2877,0,
2529,2528,2878,0,
2548,1962,2879,0,
2549,1804,2880,0,
2557,2103,2881,0,
2551,2552,2882,0,
2546,1986,2883,0,
2556,2108,2884,0,
2550,2555,2885,0,
2544,1923,2886,0,
2554,2062,2887,0,
2553,1987,2888,0,
2568,1405,2889,1,
2561,0,2890,2,
2139,2562,2891,0,
2559,2563,2892,0,
2560,2567,2893,0,
2564,2122,2894,0,
2565,2566,2895,0,
2586,0,2896,2,
1405,2568,2897,0,
2580,1870,2898,0,
2582,2579,2899,0,
2149,2578,2900,0,
2585,2152,2901,0,
2577,2150,2902,0,
2004,2581,2903,0,
2574,2572,2904,0,
2576,2146,2905,0,
2012,2569,2906,0,
2573,2143,2907,0,
2526,0,2908,2,
2589,0,2909,2,
2595,0,2910,2,
2593,2167,2911,0,
2590,0,2912,2,
2591,0,2913,2,
2587,2586,2914,1,
2605,0,2915,2,
2600,0,2916,2,
2148,2599,2917,0,
2024,2605,2918,1,
2601,0,2919,2,
2596,0,2920,2,
2597,0,2921,2,
2603,2171,2922,0,
2608,0,2923,2,
2607,0,2924,2,
2180,2606,2925,0,
2561,2575,2926,1,
2174,2610,2927,0,
2609,2611,2928,0,
2616,1897,2929,0,
2614,1955,2930,0,
2615,2612,2931,0,
2613,2188,2932,0,
2622,2621,2933,1,
2544,2543,2934,0,
2626,2624,2935,0,
2617,2119,2936,0,
2620,2198,2937,0,
2629,1875,2938,0,
2627,2207,2939,0,
2621,0,2940,2,
2632,2213,2941,0,
2633,2210,2942,0,
2630,0,2943,2,
2631,2634,2944,0,
2640,2221,2945,0,
2637,1869,2946,0,
2638,2217,2947,0,
2643,1884,2948,0,
2649,1964,2949,0,
2646,2645,2950,0,
2647,0,2951,2,
2654,0,2952,2,
2655,2236,2953,0,
2241,2654,2954,1,
2656,2240,2955,0,
2657,2245,2956,0,
2257,2661,2957,0,
2659,2253,2958,0,
2658,0,2959,2,
2263,2662,2960,0,
2666,1939,2961,0,
2673,1992,2962,0,
2672,1915,2963,0,
2670,2269,2964,0,
1848,2647,2965,1,
2663,1910,2966,0,
2669,2267,2967,0,
2667,1936,2968,0,
2665,2666,2969,0,
2683,1987,2970,0,
2676,2292,2971,0,
2680,2684,2972,0,
2678,1898,2973,0,
2283,2677,2974,0,
2675,2281,2975,0,
1858,2681,2976,0,
2682,1888,2977,0,
2693,2690,2978,0,
2554,2552,2979,0,
2548,2687,2980,0,
2313,2682,2981,0,
2689,2695,2982,0,
2702,2700,2983,0,
2688,2547,2984,0,
2692,2306,2985,0,
2694,2691,2986,0,
2592,2069,2987,0,
2710,1951,2988,0,
2714,2340,2989,0,
2709,2025,2990,0,
2696,2277,2991,0,
2721,2715,2992,0,
2339,2536,2993,0,
2716,1783,2994,0,
2708,2334,2995,0,
2706,2331,2996,0,
2707,2333,2997,0,
2711,2703,2998,0,
2713,2181,2999,0,
2719,2680,3000,0,
2063,2705,3001,0,
2643,2203,3002,0,
2362,2704,3003,0,
2727,2731,3004,0,
2729,2724,3005,0,
2733,2352,3006,0,
2211,2732,3007,0,
2628,2705,3008,0,
2719,2357,3009,0,
2219,2720,3010,0,
2277,2725,3011,0,
2728,1921,3012,0,
2723,1949,3013,0,
2748,1883,3014,0,
2750,2388,3015,0,
2738,2737,3016,0,
2749,2320,3017,0,
2745,2224,3018,0,
2743,1992,3019,0,
2742,2739,3020,0,
2567,1935,3021,0,
2723,1888,3022,0,
2741,2740,3023,0,
2747,2384,3024,0,
2735,2368,3025,0,
2756,2754,3026,0,
1669,2764,3027,1,
2759,2394,3028,0,
2760,2761,3029,0,
2399,2765,3030,0,
2762,2763,3031,0,
2752,2391,3032,0,
2766,2404,3033,0,
2764,0,3034,2,
2767,2401,3035,0,
2769,1991,3036,0,
2725,1968,3037,0,
2775,2774,3038,0,
2776,2770,3039,0,
2673,2033,3040,0,
2779,1907,3041,0,
2771,2408,3042,0,
2588,1971,3043,0,
2557,2214,3044,0,
2677,1875,3045,0,
2784,2783,3046,0,
2786,2106,3047,0,
2787,1974,3048,0,
2788,1939,3049,0,
2791,2431,3050,0,
2789,2790,3051,0,
2734,1925,3052,0,
2436,2793,3053,0,
2796,2442,3054,0,
2797,2444,3055,0,
2799,2800,3056,0,
2728,2101,3057,0,
2617,2339,3058,0,
2803,2447,3059,0,
2806,1961,3060,0,
2807,2808,3061,0,
2728,1943,3062,0,
2815,2814,3063,0,
2818,1878,3064,0,
2817,2816,3065,0,
2819,2464,3066,0,
2820,2821,3067,0,
2822,2469,3068,0,
2824,2825,3069,0,
2677,1989,3070,0,
2829,2063,3071,0,
2181,2810,3072,0,
2831,1904,3073,0,
2830,1870,3074,0,
2833,2484,3075,0,
2836,2036,3076,0,
2839,2838,3077,0,
2732,2835,3078,0,
2840,2490,3079,0,
2842,2841,3080,0,
2844,2843,3081,0,
2845,2495,3082,0,
2846,2498,3083,0,
2847,2500,3084,0,
2588,2835,3085,0,
2728,2473,3086,0,
2848,1883,3087,0,
2851,2504,3088,0,
2505,2673,3089,0,
2853,2510,3090,0,
2852,2509,3091,0,
2854,2512,3092,0,
2056,2855,3093,0,
2305,2855,3094,0,
2769,1883,3095,0,
2857,2856,3096,0,
2357,2765,3097,0,
2861,2860,3098,0,
2829,2261,3099,0,
2864,2863,3100,0,
2865,2866,3101,0,
2867,1905,3102,0,
2872,2545,3103,0,
2873,2874,3104,0,
2878,2877,3105,0,
2875,2558,3106,0,
2870,2871,3107,0,
2876,2547,3108,0,
2869,2543,3109,0,
2880,1997,3110,0,
2879,2538,3111,0,
2881,2882,3112,0,
2887,2886,3113,0,
2888,2126,3114,0,
2885,2883,3115,0,
2893,2895,3116,0,
2583,2892,3117,0,
2894,0,3118,2,
2544,2891,3119,0,
2889,2145,3120,0,
2575,2890,3121,0,
2883,2873,3122,0,
2880,0,3123,2,
2901,2592,3124,0,
2868,0,3125,2,
2588,2907,3126,0,
2587,2896,3127,0,
2905,0,3128,2,
2902,2900,3129,0,
2903,0,3130,2,
2897,0,3131,2,
2906,0,3132,2,
2899,2157,3133,0,
2526,2868,3134,1,
2909,2598,3135,0,
2889,1999,3136,1,
2912,2602,3137,0,
2604,2913,3138,0,
2911,0,3139,2,
2916,2921,3140,0,
2922,0,3141,2,
2914,0,3142,2,
2918,0,3143,2,
2024,2915,3144,0,
2917,0,3145,2,
2910,0,3146,2,
2920,2919,3147,0,
2925,2067,3148,0,
2926,0,3149,2,
2929,2203,3150,0,
2608,2922,3151,1,
2931,2932,3152,0,
2930,2625,3153,0,
2928,2623,3154,0,
2063,2869,3155,0,
2927,0,3156,2,
2871,1874,3157,0,
2936,2628,3158,0,
2934,2215,3159,0,
2933,0,3160,2,
2937,0,3161,2,
1846,2942,3162,1,
2622,2940,3163,0,
2938,2639,3164,0,
2941,2944,3165,0,
2942,0,3166,2,
2947,2641,3167,0,
2946,2642,3168,0,
2948,1977,3169,0,
2949,2234,3170,0,
1848,2951,3171,0,
2525,3076,3172,0,
2241,2952,3173,0,
2660,2956,3174,0,
2955,2249,3175,0,
2958,2674,3176,0,
2944,2623,3177,0,
2954,0,3178,2,
2664,2871,3179,0,
2960,1968,3180,0,
2967,2685,3181,0,
2963,2287,3182,0,
2965,0,3183,2,
2961,1896,3184,0,
2966,2295,3185,0,
2968,2686,3186,0,
2962,2679,3187,0,
2698,2974,3188,0,
2975,2697,3189,0,
2925,2699,3190,0,
2696,2970,3191,0,
2976,0,3192,2,
2972,1891,3193,0,
2977,1947,3194,0,
2718,2980,3195,0,
2986,2982,3196,0,
2527,2978,3197,0,
2981,2984,3198,0,
2985,2717,3199,0,
2883,1921,3200,0,
2726,2990,3201,0,
2995,2730,3202,0,
3001,2351,3203,0,
3002,1948,3204,0,
2998,2055,3205,0,
2994,2360,3206,0,
3000,2734,3207,0,
2993,2363,3208,0,
2087,2904,3209,0,
2991,2002,3210,0,
3011,2385,3211,0,
3005,3003,3212,0,
3007,1952,3213,0,
3006,1962,3214,0,
2998,2087,3215,0,
3009,1904,3216,0,
3010,2970,3217,0,
3024,2101,3218,0,
3015,2758,3219,0,
3020,1904,3220,0,
3014,2755,3221,0,
3021,1936,3222,0,
3033,2768,3223,0,
1861,3034,3224,0,
2773,3030,3225,0,
3032,1900,3226,0,
2925,1943,3227,0,
3036,1889,3228,0,
3040,2780,3229,0,
3037,2412,3230,0,
3041,2413,3231,0,
3043,2418,3232,0,
3042,2782,3233,0,
3044,1904,3234,0,
3045,1889,3235,0,
2699,2964,3236,0,
3049,2434,3237,0,
2087,3050,3238,0,
3052,1879,3239,0,
3054,1935,3240,0,
3058,1870,3241,0,
3057,2793,3242,0,
3059,2033,3243,0,
3060,2811,3244,0,
2362,3061,3245,0,
3064,2059,3246,0,
2463,2869,3247,0,
2956,2722,3248,0,
3050,1937,3249,0,
2101,3068,3250,0,
2901,1952,3251,0,
2826,3070,3252,0,
3071,2941,3253,0,
3074,2481,3254,0,
3073,2832,3255,0,
2058,2874,3256,0,
2929,2835,3257,0,
2901,2305,3258,0,
3078,1866,3259,0,
3087,2849,3260,0,
2722,3088,3261,0,
3089,2508,3262,0,
2990,1879,3263,0,
3061,3083,3264,0,
3094,2138,3265,0,
3088,2662,3266,0,
3095,1783,3267,0,
2618,2992,3268,0,
3097,1871,3269,0,
3099,1992,3270,0,
3108,3109,3271,0,
3107,3105,3272,0,
3106,3103,3273,0,
3104,2884,3274,0,
3112,2584,3275,0,
3111,3115,3276,0,
3113,3114,3277,0,
3110,0,3278,2,
2904,3119,3279,0,
3118,2164,3280,0,
3122,3116,3281,0,
3120,0,3282,2,
3121,0,3283,2,
2168,3123,3284,0,
2898,3117,3285,0,
3125,2908,3286,0,
3124,3129,3287,0,
3127,0,3288,2,
2910,3132,3289,0,
3135,0,3290,2,
2914,3135,3291,1,
3136,2607,3292,1,
3138,0,3293,2,
3136,0,3294,2,
3137,0,3295,2,
2918,3137,3296,1,
3134,0,3297,2,
2926,3140,3298,1,
2923,3141,3299,0,
3144,0,3300,2,
2906,3146,3301,0,
3140,0,3302,2,
3148,2618,3303,0,
3147,0,3304,2,
3155,2139,3305,0,
2935,3154,3306,0,
3153,3152,3307,0,
2635,3157,3308,0,
3159,2636,3309,0,
3161,2943,3310,0,
3151,0,3311,2,
3163,0,3312,2,
3103,2928,3313,0,
3165,1899,3314,0,
2644,3164,3315,0,
3162,0,3316,2,
3168,3129,3317,0,
2651,3167,3318,0,
1846,3166,3319,0,
3169,2237,3320,0,
3170,2157,3321,0,
3171,0,3322,2,
3173,0,3323,2,
2214,3175,3324,0,
2957,3174,3325,0,
3177,2293,3326,0,
3179,2969,3327,0,
3180,2280,3328,0,
2964,3176,3329,0,
3186,3184,3330,0,
3187,2701,3331,0,
3181,1995,3332,0,
3193,2344,3333,0,
3194,2330,3334,0,
3167,1784,3335,0,
3168,2543,3336,0,
2979,3188,3337,0,
3190,2059,3338,0,
3192,2349,3339,0,
3191,2240,3340,0,
3198,3196,3341,0,
3164,2722,3342,0,
3195,2989,3343,0,
3176,1921,3344,0,
2999,3197,3345,0,
3200,2996,3346,0,
2884,3106,3347,0,
3210,2751,3348,0,
3209,2618,3349,0,
3207,3013,3350,0,
3208,2746,3351,0,
3004,3201,3352,0,
3202,3181,3353,0,
3205,3008,3354,0,
3217,3022,3355,0,
3214,2407,3356,0,
3216,2405,3357,0,
3212,3189,3358,0,
3220,2772,3359,0,
2592,3175,3360,0,
3222,2778,3361,0,
3218,2263,3362,0,
3221,3219,3363,0,
3039,3225,3364,0,
3223,2002,3365,0,
3224,0,3366,2,
3226,1909,3367,0,
3231,3232,3368,0,
3230,3103,3369,0,
3228,2419,3370,0,
3234,2424,3371,0,
3235,2427,3372,0,
3236,2285,3373,0,
3237,2795,3374,0,
3239,2802,3375,0,
3238,2801,3376,0,
3223,2139,3377,0,
3129,2062,3378,0,
3240,2448,3379,0,
3241,2812,3380,0,
3246,2002,3381,0,
3059,3221,3382,0,
3248,2823,3383,0,
3249,1951,3384,0,
3182,2029,3385,0,
3202,2420,3386,0,
3250,2157,3387,0,
3256,2672,3388,0,
3254,2834,3389,0,
3230,2120,3390,0,
3109,2874,3391,0,
3108,2873,3392,0,
3258,2003,3393,0,
3175,2103,3394,0,
3259,1963,3395,0,
3262,3091,3396,0,
3263,1963,3397,0,
3154,1899,3398,0,
3265,2516,3399,0,
3264,2215,3400,0,
3267,2858,3401,0,
3268,2468,3402,0,
3273,3274,3403,0,
3271,3272,3404,0,
3276,3277,3405,0,
2870,3275,3406,0,
2594,3278,3407,0,
3284,0,3408,2,
3133,3285,3409,0,
3281,3275,3410,0,
3131,3282,3411,0,
3128,3283,3412,0,
3279,3126,3413,0,
3280,0,3414,2,
3130,3278,3415,0,
3139,3288,3416,0,
3286,0,3417,2,
3289,0,3418,2,
3142,3290,3419,0,
3292,3293,3420,0,
3294,2924,3421,0,
3147,3297,3422,0,
3143,3295,3423,0,
3299,0,3424,2,
2619,3300,3425,0,
3149,3302,3426,0,
3301,0,3427,2,
3292,3138,3428,1,
3134,3304,3429,0,
3303,3150,3430,0,
3306,3307,3431,0,
3305,3158,3432,0,
3310,0,3433,2,
3309,3308,3434,0,
3314,2648,3435,0,
3162,3310,3436,1,
3315,2650,3437,0,
3313,2567,3438,0,
3318,2527,3439,0,
3319,0,3440,2,
2254,3322,3441,0,
3172,3321,3442,0,
2959,3323,3443,0,
3324,2687,3444,0,
3325,2069,3445,0,
3326,2973,3446,0,
3325,3167,3447,0,
3329,2318,3448,0,
3327,3185,3449,0,
3328,2971,3450,0,
3332,1964,3451,0,
3331,2983,3452,0,
3330,2704,3453,0,
3336,2623,3454,0,
1860,3339,3455,1,
3335,2992,3456,0,
3334,3337,3457,0,
3333,1871,3458,0,
3338,3340,3459,0,
3342,2736,3460,0,
3344,3170,3461,0,
3343,3341,3462,0,
3012,3347,3463,0,
3339,0,3464,2,
3349,3017,3465,0,
3350,3018,3466,0,
3354,2729,3467,0,
3347,1923,3468,0,
3353,3215,3469,0,
3351,3352,3470,0,
3355,3035,3471,0,
3358,3354,3472,0,
3361,3276,3473,0,
3359,2067,3474,0,
3362,2781,3475,0,
3227,3334,3476,0,
3365,1928,3477,0,
3367,2421,3478,0,
3368,1948,3479,0,
3371,1921,3480,0,
3053,3373,3481,0,
3374,2085,3482,0,
3376,2804,3483,0,
3377,2285,3484,0,
3368,2337,3485,0,
3361,3333,3486,0,
3368,3379,3487,0,
3384,2474,3488,0,
3276,2463,3489,0,
3387,2477,3490,0,
3385,3251,3491,0,
3388,3257,3492,0,
2463,3389,3493,0,
3390,3076,3494,0,
3391,3392,3495,0,
3347,2996,3496,0,
3325,2055,3497,0,
3032,3389,3498,0,
3398,2179,3499,0,
2871,3359,3500,0,
2544,3351,3501,0,
2181,3379,3502,0,
3410,3413,3503,0,
3287,3409,3504,0,
3404,3403,3505,0,
3407,0,3506,2,
3406,3405,3507,0,
3412,0,3508,2,
3411,0,3509,2,
3415,3414,3510,0,
3416,0,3511,2,
3145,3417,3512,0,
3411,3291,3513,1,
3421,0,3514,2,
3422,0,3515,2,
3423,0,3516,2,
3419,0,3517,2,
3420,0,3518,2,
3416,3298,3519,1,
3426,0,3520,2,
3156,3424,3521,0,
3425,0,3522,2,
3429,0,3523,2,
3428,0,3524,2,
3430,2939,3525,0,
2933,3425,3526,1,
3296,3412,3527,1,
3432,2945,3528,0,
3316,3433,3529,0,
2652,3438,3530,0,
3437,2653,3531,0,
3435,2950,3532,0,
3439,2953,3533,0,
2965,3443,3534,0,
3442,2671,3535,0,
2668,3441,3536,1,
3441,0,3537,2,
3443,0,3538,2,
3444,2309,3539,0,
3445,3182,3540,0,
3189,3449,3541,0,
3448,2348,3542,0,
3153,3446,3543,0,
3447,3182,3544,0,
3450,3413,3545,0,
3449,3199,3546,0,
3452,2992,3547,0,
3453,2988,3548,0,
2390,3458,3549,0,
3459,3206,3550,0,
3456,3203,3551,0,
2965,3443,3552,1,
3455,0,3553,2,
3454,2369,3554,0,
1860,3464,3555,0,
3460,2753,3556,0,
3461,3019,3557,0,
3434,1972,3558,0,
3468,1873,3559,0,
3466,3467,3560,0,
3465,3028,3561,0,
3469,3356,3562,0,
3472,3038,3563,0,
3363,3471,3564,0,
3475,2785,3565,0,
3467,2770,3566,0,
3452,2285,3567,0,
3364,3473,3568,0,
3477,2351,3569,0,
3478,2742,3570,0,
3479,1903,3571,0,
3480,3221,3572,0,
3471,3375,3573,0,
3481,3056,3574,0,
3063,3446,3575,0,
3247,3485,3576,0,
3471,2925,3577,0,
3487,2473,3578,0,
3382,3478,3579,0,
3489,3386,3580,0,
3491,2827,3581,0,
3490,2828,3582,0,
3487,3374,3583,0,
3483,3371,3584,0,
3492,2837,3585,0,
3493,3470,3586,0,
3496,2226,3587,0,
2473,3495,3588,0,
3086,3449,3589,0,
3497,2357,3590,0,
3085,3477,3591,0,
3446,2058,3592,0,
3450,2069,3593,0,
2473,3413,3594,0,
3499,2932,3595,0,
3093,3451,3596,0,
3462,3550,3597,0,
3505,0,3598,2,
3506,3408,3599,0,
3291,3509,3600,0,
3296,3508,3601,0,
3510,0,3602,2,
3504,0,3603,2,
3503,3505,3604,0,
3512,0,3605,2,
3298,3511,3606,0,
3513,0,3607,2,
3507,0,3608,2,
3514,3518,3609,0,
3515,3427,3610,0,
3521,0,3611,2,
3521,3428,3612,0,
3519,0,3613,2,
3160,3522,3614,0,
3431,3525,3615,0,
3527,0,3616,2,
3512,3311,3617,0,
3434,3528,3618,0,
3503,3504,3619,1,
3529,0,3620,2,
3503,0,3621,2,
3530,3320,3622,0,
3531,3532,3623,0,
3533,2592,3624,0,
3536,0,3625,2,
3534,0,3626,2,
3535,1991,3627,0,
2668,3537,3628,0,
3183,3538,3629,0,
2720,3539,3630,0,
3541,3451,3631,0,
3545,2699,3632,0,
3544,2987,3633,0,
3457,3548,3634,0,
3546,3547,3635,0,
3551,3016,3636,0,
3554,3025,3637,0,
3549,2757,3638,0,
3557,3029,3639,0,
3556,3026,3640,0,
3555,3027,3641,0,
2777,3558,3642,0,
3559,2739,3643,0,
3360,3560,3644,0,
3555,0,3645,2,
3542,3347,3646,0,
3525,1993,3647,0,
3531,2728,3648,0,
3564,3474,3649,0,
3233,3563,3650,0,
3369,3567,3651,0,
3566,2684,3652,0,
3568,3565,3653,0,
3570,2792,3654,0,
3571,2441,3655,0,
3572,2798,3656,0,
3535,3343,3657,0,
3574,2058,3658,0,
3378,3573,3659,0,
3062,3565,3660,0,
3575,3466,3661,0,
3504,3503,3662,0,
3577,3486,3663,0,
3578,3579,3664,0,
3580,3252,3665,0,
3574,3582,3666,0,
3583,3584,3667,0,
3585,2473,3668,0,
3586,3494,3669,0,
3495,3582,3670,0,
3585,2829,3671,0,
3550,1921,3672,0,
3587,2497,3673,0,
3542,3024,3674,0,
3588,2793,3675,0,
3591,2850,3676,0,
3589,3590,3677,0,
3525,3548,3678,0,
3593,2810,3679,0,
3592,3068,3680,0,
3563,3054,3681,0,
3595,3199,3682,0,
3594,3500,3683,0,
3559,3064,3684,0,
3501,3533,3685,0,
3623,3622,3686,0,
3598,3507,3687,1,
3599,3418,3688,0,
3600,0,3689,2,
3601,0,3690,2,
3604,0,3691,2,
3606,0,3692,2,
3598,3608,3693,0,
3151,3605,3694,0,
3607,0,3695,2,
3609,0,3696,2,
3614,0,3697,2,
3612,0,3698,2,
3524,3611,3699,0,
3615,0,3700,2,
3507,3615,3701,1,
3617,0,3702,2,
3317,3618,3703,0,
3503,3603,3704,0,
1854,3619,3705,0,
3440,3620,3706,0,
1853,3603,3707,0,
1660,3621,3708,0,
1663,3608,3709,0,
3624,2270,3710,0,
1660,3603,3711,0,
1855,3621,3712,0,
1853,3598,3713,0,
1855,3603,3714,0,
3625,3626,3715,0,
3627,1881,3716,0,
1853,3608,3717,0,
1660,3598,3718,0,
3629,0,3719,2,
3628,0,3720,2,
2712,3621,3721,0,
1397,3621,3722,0,
1663,3603,3723,0,
1664,3598,3724,0,
1498,3608,3725,0,
3543,3630,3726,0,
1498,3603,3727,0,
1575,3619,3728,0,
3632,2744,3729,0,
3346,3631,3730,0,
1663,3598,3731,0,
3633,3345,3732,0,
1664,3608,3733,0,
1855,3598,3734,0,
1664,3621,3735,0,
1660,3608,3736,0,
1580,3608,3737,0,
3550,3634,3738,0,
1397,3603,3739,0,
3635,3213,3740,0,
3470,3636,3741,0,
3597,0,3742,2,
3637,3622,3743,0,
3642,3562,3744,0,
2720,3639,3745,0,
3641,0,3746,2,
1505,3608,3747,0,
1506,3598,3748,0,
3643,1935,3749,0,
3644,3229,3750,0,
1855,3608,3751,0,
2051,3621,3752,0,
3648,3233,3753,0,
3650,2293,3754,0,
3649,3370,3755,0,
3646,2728,3756,0,
1506,3621,3757,0,
1507,3619,3758,0,
2423,3647,3759,0,
1580,3603,3760,0,
1397,3598,3761,0,
3651,3047,3762,0,
1506,3603,3763,0,
3653,0,3764,2,
1505,3598,3765,0,
1505,3603,3766,0,
1580,3621,3767,0,
1429,3603,3768,0,
1583,3603,3769,0,
1428,3598,3770,0,
1429,3608,3771,0,
1511,3619,3772,0,
1428,3608,3773,0,
1583,3598,3774,0,
3654,2794,3775,0,
1428,3621,3776,0,
1864,3621,3777,0,
3656,3055,3778,0,
3657,2810,3779,0,
1430,3608,3780,0,
1397,3608,3781,0,
1506,3608,3782,0,
1865,3621,3783,0,
3658,2457,3784,0,
1580,3598,3785,0,
3659,3484,3786,0,
1583,3608,3787,0,
1292,3608,3788,0,
1430,3598,3789,0,
1430,3603,3790,0,
1292,3598,3791,0,
1359,3608,3792,0,
1663,3621,3793,0,
1498,3598,3794,0,
1664,3603,3795,0,
3661,3381,3796,0,
1583,3621,3797,0,
1429,3598,3798,0,
1428,3603,3799,0,
3663,3383,3800,0,
3664,3488,3801,0,
3665,3581,3802,0,
3666,3072,3803,0,
3667,3075,3804,0,
3669,3077,3805,0,
3670,3219,3806,0,
3672,3671,3807,0,
3673,3082,3808,0,
3674,2235,3809,0,
3677,3676,3810,0,
3678,3063,3811,0,
3679,3680,3812,0,
3498,3681,3813,0,
2085,3622,3814,0,
3683,3596,3815,0,
3682,3636,3816,0,
3684,1925,3817,0,
3685,3402,3818,0,
3636,2067,3819,0,
3637,3375,3820,0,
3642,2742,3821,0,
3743,3640,3822,0,
3815,3096,3823,0,
3687,0,3824,2,
3688,3602,3825,0,
3517,3689,3826,0,
3516,3690,3827,0,
3609,3695,3828,0,
3693,0,3829,2,
3694,0,3830,2,
3520,3692,3831,0,
3607,3696,3832,0,
3312,3697,3833,0,
3608,3700,3834,0,
3703,0,3835,2,
3700,3703,3836,1,
3598,3704,3837,1,
3705,0,3838,2,
3707,0,3839,2,
3691,3603,3840,0,
2954,3706,3841,1,
3708,0,3842,2,
3706,0,3843,2,
1664,3700,3844,0,
3709,0,3845,2,
3713,0,3846,2,
3711,0,3847,2,
3686,0,3848,2,
3712,0,3849,2,
3710,2285,3850,0,
3717,0,3851,2,
3714,0,3852,2,
3715,0,3853,2,
3718,0,3854,2,
3716,2341,3855,0,
1397,3721,3856,1,
3722,0,3857,2,
1663,3700,3858,0,
3725,0,3859,2,
3723,0,3860,2,
3724,0,3861,2,
3726,3204,3862,0,
1506,3700,3863,0,
1498,3700,3864,0,
1853,3700,3865,0,
3597,3686,3866,1,
3730,3348,3867,0,
3733,0,3868,2,
3732,0,3869,2,
3731,0,3870,2,
3729,3211,3871,0,
3727,0,3872,2,
3728,0,3873,2,
3739,0,3874,2,
3735,0,3875,2,
3734,0,3876,2,
3736,0,3877,2,
3738,0,3878,2,
3740,3031,3879,0,
3737,0,3880,2,
3741,3561,3881,0,
1498,3742,3882,0,
3742,3738,3883,1,
3746,3366,3884,0,
3745,3184,3885,0,
3744,0,3886,2,
1660,3700,3887,0,
3749,2426,3888,0,
3751,0,3889,2,
3750,3046,3890,0,
3748,0,3891,2,
3747,0,3892,2,
3753,3652,3893,0,
1275,3752,3894,1,
3759,3048,3895,0,
3760,0,3896,2,
3754,3569,3897,0,
3757,0,3898,2,
1580,3700,3899,0,
3758,0,3900,2,
1505,3742,3901,0,
3744,3653,3902,1,
3756,2719,3903,0,
3755,0,3904,2,
3770,0,3905,2,
3771,0,3906,2,
1429,3700,3907,0,
3761,0,3908,2,
3766,0,3909,2,
3765,0,3910,2,
3767,0,3911,2,
3763,0,3912,2,
3772,0,3913,2,
3769,0,3914,2,
3768,0,3915,2,
1664,3742,3916,0,
3655,3775,3917,0,
3776,0,3918,2,
3774,0,3919,2,
3775,2056,3920,0,
3773,0,3921,2,
1506,3742,3922,0,
1292,3700,3923,0,
1855,3700,3924,0,
1242,3777,3925,1,
3778,3483,3926,0,
3242,3779,3927,0,
3780,0,3928,2,
1505,3700,3929,0,
1428,3700,3930,0,
3782,0,3931,2,
3785,0,3932,2,
1238,3783,3933,1,
3245,3784,3934,0,
3786,3244,3935,0,
3781,0,3936,2,
3787,0,3937,2,
3790,0,3938,2,
3792,0,3939,2,
3791,0,3940,2,
1663,3742,3941,0,
1580,3742,3942,0,
3789,0,3943,2,
3788,0,3944,2,
1853,3742,3945,0,
3794,0,3946,2,
3795,0,3947,2,
3793,0,3948,2,
1359,3700,3949,0,
3778,3186,3950,0,
1397,3700,3951,0,
1429,3742,3952,0,
1583,3700,3953,0,
3796,3066,3954,0,
3797,0,3955,2,
3799,0,3956,2,
3798,0,3957,2,
1660,3742,3958,0,
1430,3700,3959,0,
1583,3742,3960,0,
1428,3742,3961,0,
3800,3069,3962,0,
3801,0,3963,2,
1855,3742,3964,0,
1359,3742,3965,0,
1230,3802,3966,1,
1430,3742,3967,0,
3803,3253,3968,0,
1292,3742,3969,0,
3802,0,3970,2,
1397,3742,3971,0,
3804,0,3972,2,
3805,0,3973,2,
3806,3394,3974,0,
3807,3080,3975,0,
3808,3083,3976,0,
3006,3710,3977,0,
3675,3809,3978,0,
3810,0,3979,2,
3810,1242,3980,0,
3812,3090,3981,0,
3811,3261,3982,0,
3813,3397,3983,0,
3816,3266,3984,0,
3814,3539,3985,0,
3639,3784,3986,0,
3817,2862,3987,0,
3820,3819,3988,0,
3821,2318,3989,0,
3502,3808,3990,0,
3862,3023,3991,0,
1397,3972,3992,0,
3603,3824,3993,0,
3825,0,3994,2,
3826,0,3995,2,
3827,0,3996,2,
3828,0,3997,2,
3830,3523,3998,0,
3519,3826,3999,1,
3831,0,4000,2,
3527,3831,4001,1,
3827,3526,4002,1,
3832,0,4003,2,
3436,3833,4004,1,
3834,0,4005,2,
1498,3835,4006,0,
3836,0,4007,2,
3833,0,4008,2,
3687,3840,4009,1,
3839,3838,4010,0,
3700,3835,4011,0,
3835,3686,4012,1,
1854,3837,4013,0,
3178,3843,4014,0,
3844,0,4015,2,
3835,3848,4016,0,
3850,2261,4017,0,
3846,3847,4018,0,
1498,3848,4019,0,
1664,3835,4020,0,
3720,3853,4021,0,
3542,3855,4022,0,
3851,3854,4023,0,
3858,0,4024,2,
1505,3835,4025,0,
3863,0,4026,2,
3859,3861,4027,0,
3864,0,4028,2,
3869,3621,4029,0,
3871,3638,4030,0,
3872,3873,4031,0,
3865,0,4032,2,
3867,0,4033,2,
3879,0,4034,2,
1664,3848,4035,0,
3738,3867,4036,0,
1663,3835,4037,0,
3742,3878,4038,0,
3848,3742,4039,0,
3856,1397,4040,0,
1853,3835,4041,0,
3882,0,4042,2,
3883,0,4043,2,
3822,3881,4044,1,
3856,1487,4045,1,
1506,3835,4046,0,
1505,3848,4047,0,
3476,3885,4048,0,
3887,0,4049,2,
3886,3822,4050,1,
1506,3848,4051,0,
3890,0,4052,2,
3892,3891,4053,0,
1580,3835,4054,0,
1507,3837,4055,0,
3822,0,4056,2,
3893,3051,4057,0,
3900,3898,4058,0,
3901,0,4059,2,
3899,0,4060,2,
3897,3372,4061,0,
3903,3855,4062,0,
3762,3895,4063,0,
3878,3867,4064,1,
1498,3878,4065,0,
3907,0,4066,2,
3906,3905,4067,0,
3915,3913,4068,0,
1663,3848,4069,0,
1580,3848,4070,0,
3910,3912,4071,0,
1853,3848,4072,0,
3916,0,4073,2,
1359,3835,4074,0,
3917,1870,4075,0,
3922,0,4076,2,
1505,3878,4077,0,
3482,3920,4078,0,
1660,3835,4079,0,
3924,0,4080,2,
3925,1242,4081,0,
3894,1349,4082,1,
3923,0,4083,2,
3926,3243,4084,0,
3925,1284,4085,1,
1429,3835,4086,0,
3929,0,4087,2,
3927,3380,4088,0,
1575,3837,4089,0,
3930,0,4090,2,
3660,3934,4091,0,
1664,3878,4092,0,
1506,3878,4093,0,
1660,3848,4094,0,
3941,0,4095,2,
1855,3835,4096,0,
3935,0,4097,2,
3942,0,4098,2,
3943,3944,4099,0,
3894,1275,4100,0,
3939,3940,4101,0,
3949,0,4102,2,
1580,3878,4103,0,
3946,3947,4104,0,
3837,0,4105,2,
3945,0,4106,2,
1583,3835,4107,0,
1428,3848,4108,0,
1429,3848,4109,0,
1428,3835,4110,0,
3933,1238,4111,0,
1511,3837,4112,0,
3952,0,4113,2,
1238,3933,4114,1,
3953,0,4115,2,
3950,2235,4116,0,
3951,0,4117,2,
1663,3878,4118,0,
1853,3878,4119,0,
1855,3848,4120,0,
3957,3956,4121,0,
3958,0,4122,2,
3954,0,4123,2,
1359,3848,4124,0,
1292,3835,4125,0,
1428,3878,4126,0,
1429,3878,4127,0,
1583,3848,4128,0,
1397,3835,4129,0,
3961,0,4130,2,
3960,0,4131,2,
3959,0,4132,2,
1583,3878,4133,0,
1660,3878,4134,0,
3962,0,4135,2,
3964,0,4136,2,
1292,3848,4137,0,
1430,3835,4138,0,
3965,0,4139,2,
1292,3878,4140,0,
3966,0,4141,2,
1397,3848,4142,0,
1430,3848,4143,0,
3967,0,4144,2,
1359,3878,4145,0,
3968,3255,4146,0,
1230,3970,4147,0,
3969,0,4148,2,
1855,3878,4149,0,
3963,3804,4150,1,
1429,3963,4151,0,
3963,3972,4152,0,
3668,3855,4153,0,
1397,3878,4154,0,
3972,3805,4155,1,
1430,3878,4156,0,
1429,3972,4157,0,
1428,3963,4158,0,
3972,3973,4159,0,
3974,3395,4160,0,
3975,3081,4161,0,
1505,3963,4162,0,
1583,3972,4163,0,
1428,3973,4164,0,
1505,3972,4165,0,
1506,3963,4166,0,
1580,3963,4167,0,
1506,3972,4168,0,
1505,3973,4169,0,
1429,3973,4170,0,
1428,3972,4171,0,
1583,3963,4172,0,
3977,1903,4173,0,
3976,2468,4174,0,
1359,3972,4175,0,
1292,3963,4176,0,
1583,3973,4177,0,
1430,3972,4178,0,
1292,3973,4179,0,
1498,3963,4180,0,
1430,3963,4181,0,
1292,3972,4182,0,
1359,3973,4183,0,
1580,3972,4184,0,
1506,3973,4185,0,
1359,3963,4186,0,
1664,3963,4187,0,
1498,3972,4188,0,
1430,3973,4189,0,
1580,3973,4190,0,
3978,3260,4191,0,
3979,1284,4192,0,
1664,3972,4193,0,
1498,3973,4194,0,
1663,3963,4195,0,
3980,0,4196,2,
1853,3963,4197,0,
1663,3972,4198,0,
1664,3973,4199,0,
1663,3973,4200,0,
3982,3092,4201,0,
3981,3396,4202,0,
1853,3972,4203,0,
1660,3963,4204,0,
3983,0,4205,2,
3823,0,4206,2,
1853,3973,4207,0,
1855,3963,4208,0,
1660,3972,4209,0,
3985,3400,4210,0,
3984,3399,4211,0,
1397,3973,4212,0,
1397,3963,4213,0,
1660,3973,4214,0,
1855,3972,4215,0,
1855,3973,4216,0,
2859,3986,4217,0,
3818,3987,4218,0,
3988,3270,4219,0,
3990,3989,4220,0,
3993,3691,4221,0,
3610,3994,4222,0,
3613,3995,4223,0,
3996,3526,4224,0,
3616,4000,4225,0,
3997,3698,4226,0,
3999,4001,4227,0,
3699,3997,4228,0,
4004,0,4229,2,
4007,3701,4230,0,
4006,0,4231,2,
3436,4008,4232,0,
4011,0,4233,2,
4010,3842,4234,0,
4013,0,4235,2,
4009,0,4236,2,
4012,0,4237,2,
4014,0,4238,2,
4002,0,4239,2,
4016,0,4240,2,
3540,4017,4241,0,
4019,0,4242,2,
4020,0,4243,2,
4021,0,4244,2,
4022,2140,4245,0,
4025,0,4246,2,
4028,3868,4247,0,
4032,3877,4248,0,
4031,3875,4249,0,
4033,4030,4250,1,
4029,1397,4251,0,
4035,0,4252,2,
4037,0,4253,2,
3878,4033,4254,0,
4036,0,4255,2,
4038,0,4256,2,
4039,0,4257,2,
4034,3881,4258,1,
4041,0,4259,2,
3866,4043,4260,0,
4030,0,4261,2,
4047,0,4262,2,
4046,0,4263,2,
4048,3888,4264,0,
3755,4034,4265,0,
4050,0,4266,2,
4053,3896,4267,0,
3902,4050,4268,0,
3904,4034,4269,0,
4055,0,4270,2,
4052,3653,4271,1,
4054,0,4272,2,
4051,0,4273,2,
4045,0,4274,2,
4063,0,4275,2,
4058,3909,4276,0,
3908,4057,4277,1,
4064,0,4278,2,
4068,3918,4279,0,
4065,0,4280,2,
3919,4066,4281,0,
4070,0,4282,2,
4069,0,4283,2,
4077,0,4284,2,
4075,2809,4285,0,
4072,0,4286,2,
4079,0,4287,2,
4078,3379,4288,0,
4057,0,4289,2,
4074,0,4290,2,
4082,0,4291,2,
1583,4033,4292,0,
4084,2813,4293,0,
4086,0,4294,2,
4085,0,4295,2,
4087,3931,4296,0,
3936,4088,4297,1,
1505,4033,4298,0,
1498,4033,4299,0,
4092,0,4300,2,
4089,0,4301,2,
1580,4033,4302,0,
4093,0,4303,2,
4091,3065,4304,0,
4088,0,4305,2,
1506,4033,4306,0,
4094,0,4307,2,
4096,0,4308,2,
1230,4105,4309,0,
4103,0,4310,2,
1429,4097,4311,0,
4110,0,4312,2,
4107,0,4313,2,
4109,0,4314,2,
4108,0,4315,2,
4117,3954,4316,1,
1664,4033,4317,0,
1505,4097,4318,0,
3576,4116,4319,0,
4112,0,4320,2,
4118,0,4321,2,
1506,4097,4322,0,
1428,4097,4323,0,
4119,0,4324,2,
4120,0,4325,2,
1429,4033,4326,0,
3951,4123,4327,0,
4128,0,4328,2,
4129,0,4329,2,
4127,0,4330,2,
4126,0,4331,2,
4125,0,4332,2,
4124,0,4333,2,
1428,4033,4334,0,
1853,4033,4335,0,
1580,4097,4336,0,
4133,0,4337,2,
1663,4033,4338,0,
4134,0,4339,2,
1583,4097,4340,0,
4138,0,4341,2,
4137,0,4342,2,
4129,4135,4343,0,
1359,4033,4344,0,
3966,4142,4345,1,
4140,0,4346,2,
4141,3848,4347,0,
4146,0,4348,2,
4143,0,4349,2,
1660,4033,4350,0,
4145,0,4351,2,
1498,4097,4352,0,
4147,0,4353,2,
4149,0,4354,2,
4150,0,4355,2,
4151,0,4356,2,
4152,0,4357,2,
1664,4097,4358,0,
4153,3393,4359,0,
1430,4033,4360,0,
1359,4097,4361,0,
1292,4033,4362,0,
4155,0,4363,2,
4156,0,4364,2,
1855,4033,4365,0,
4154,0,4366,2,
4157,0,4367,2,
4158,0,4368,2,
4159,0,4369,2,
1292,4097,4370,0,
1663,4097,4371,0,
3973,4160,4372,1,
1853,4097,4373,0,
4160,0,4374,2,
4161,0,4375,2,
4162,0,4376,2,
1397,4033,4377,0,
4165,0,4378,2,
4166,0,4379,2,
4164,0,4380,2,
4163,0,4381,2,
4169,0,4382,2,
4168,0,4383,2,
4170,0,4384,2,
4167,0,4385,2,
4172,0,4386,2,
4171,0,4387,2,
1430,4097,4388,0,
4176,0,4389,2,
4175,0,4390,2,
4174,4173,4391,0,
4177,0,4392,2,
4179,0,4393,2,
4178,0,4394,2,
1660,4097,4395,0,
4182,0,4396,2,
4181,0,4397,2,
4183,0,4398,2,
4180,0,4399,2,
4184,0,4400,2,
4185,0,4401,2,
4186,0,4402,2,
4187,0,4403,2,
4188,0,4404,2,
1855,4097,4405,0,
4189,0,4406,2,
4190,0,4407,2,
4191,0,4408,2,
4192,0,4409,2,
1397,4097,4410,0,
4194,0,4411,2,
4195,0,4412,2,
4193,0,4413,2,
4198,0,4414,2,
4197,0,4415,2,
4199,0,4416,2,
4200,0,4417,2,
1275,4201,4418,1,
4201,0,4419,2,
4202,0,4420,2,
4204,0,4421,2,
4203,0,4422,2,
3992,3823,4423,1,
3823,3992,4424,0,
4207,0,4425,2,
4209,0,4426,2,
4210,3401,4427,0,
4206,4211,4428,1,
4208,0,4429,2,
4215,0,4430,2,
4211,4206,4431,0,
4214,0,4432,2,
4216,0,4433,2,
4211,0,4434,2,
4217,3269,4435,0,
4218,0,4436,2,
4219,3100,4437,0,
4220,3101,4438,0,
4435,3098,4439,0,
4221,0,4440,2,
4222,0,4441,2,
4224,0,4442,2,
4223,4001,4443,0,
4226,3702,4444,0,
4228,0,4445,2,
4227,0,4446,2,
4225,0,4447,2,
4232,3841,4448,0,
4231,3845,4449,0,
1854,4236,4450,0,
4235,3849,4451,0,
4007,4237,4452,0,
1397,4234,4453,1,
4005,4233,4454,0,
1575,4236,4455,0,
4233,4240,4456,0,
4241,2997,4457,0,
4243,4242,4458,0,
3463,4245,4459,0,
4244,3553,4460,0,
4026,4246,4461,0,
4232,0,4462,2,
4223,0,4463,2,
4250,0,4464,2,
1275,4249,4465,1,
4258,0,4466,2,
4258,4044,4467,0,
4254,0,4468,2,
4257,4256,4469,0,
4042,4252,4470,0,
4259,4049,4471,0,
1507,4236,4472,0,
3739,4251,4473,0,
1511,4236,4474,0,
3764,4266,4475,0,
4264,3890,4476,1,
4262,4263,4477,0,
4251,0,4478,2,
4264,0,4479,2,
4033,4261,4480,0,
4268,3764,4481,0,
4261,4063,4482,1,
4271,0,4483,2,
4272,4059,4484,0,
4270,3911,4485,0,
4261,4275,4486,0,
1242,4276,4487,1,
4280,4073,4488,0,
4282,4076,4489,0,
4260,4278,4490,0,
1238,4279,4491,1,
4288,1893,4492,0,
3761,4289,4493,0,
4286,4287,4494,0,
4285,0,4495,2,
4285,4061,4496,1,
4290,4083,4497,0,
1429,4275,4498,0,
1428,4261,4499,0,
1432,4236,4500,0,
4275,3935,4501,1,
4292,0,4502,2,
4293,0,4503,2,
4269,0,4504,2,
4299,0,4505,2,
1505,4275,4506,0,
1506,4261,4507,0,
4294,4090,4508,0,
4298,0,4509,2,
4304,0,4510,2,
4301,3948,4511,0,
4302,0,4512,2,
4275,4097,4513,0,
1505,4261,4514,0,
4106,4307,4515,0,
3781,4305,4516,0,
4306,0,4517,2,
1583,4261,4518,0,
1428,4275,4519,0,
3662,4309,4520,0,
4311,0,4521,2,
1498,4261,4522,0,
1580,4261,4523,0,
1506,4275,4524,0,
4313,4113,4525,0,
4314,4115,4526,0,
4320,3955,4527,0,
4319,3067,4528,0,
4318,0,4529,2,
1580,4275,4530,0,
4317,0,4531,2,
1583,4275,4532,0,
4322,0,4533,2,
4323,0,4534,2,
4324,4122,4535,0,
4327,0,4536,2,
4326,0,4537,2,
1429,4261,4538,0,
4330,4130,4539,0,
4329,3962,4540,1,
4333,4332,4541,0,
1664,4261,4542,0,
4334,0,4543,2,
1498,4275,4544,0,
4335,0,4545,2,
4336,0,4546,2,
4338,0,4547,2,
4340,0,4548,2,
4139,4342,4549,0,
4343,0,4550,2,
4344,0,4551,2,
4347,1397,4552,0,
4345,0,4553,2,
1853,4261,4554,0,
4348,1250,4555,1,
1664,4275,4556,0,
1663,4261,4557,0,
4350,0,4558,2,
4351,4148,4559,0,
4352,0,4560,2,
1663,4275,4561,0,
4348,1250,4562,0,
1359,4275,4563,0,
4358,0,4564,2,
1292,4261,4565,0,
1292,4275,4566,0,
1430,4261,4567,0,
1359,4261,4568,0,
4362,0,4569,2,
1853,4275,4570,0,
1660,4261,4571,0,
4359,3079,4572,0,
4360,0,4573,2,
4361,0,4574,2,
4365,0,4575,2,
1430,4275,4576,0,
4367,4368,4577,0,
4372,0,4578,2,
4371,0,4579,2,
1855,4261,4580,0,
1660,4275,4581,0,
4370,0,4582,2,
1429,4374,4583,0,
4373,0,4584,2,
3973,4374,4585,0,
4375,1287,4586,1,
4378,4379,4587,0,
1428,4374,4588,0,
4382,4383,4589,0,
1511,4374,4590,0,
4386,4387,4591,0,
1583,4374,4592,0,
1397,4261,4593,0,
1359,4374,4594,0,
4388,0,4595,2,
4375,1287,4596,0,
4391,3084,4597,0,
1855,4275,4598,0,
4390,4389,4599,0,
1505,4374,4600,0,
1432,4374,4601,0,
4395,0,4602,2,
4398,4396,4603,0,
1430,4374,4604,0,
1292,4374,4605,0,
1506,4374,4606,0,
4404,4403,4607,0,
4405,0,4608,2,
1397,4275,4609,0,
1580,4374,4610,0,
4411,4413,4611,0,
4196,4409,4612,0,
4410,0,4613,2,
1498,4374,4614,0,
1664,4374,4615,0,
4418,4420,4616,0,
1349,4419,4617,0,
4422,4421,4618,0,
1855,4374,4619,0,
1663,4374,4620,0,
4424,0,4621,2,
4418,4202,4622,1,
4425,4426,4623,0,
4428,4212,4624,1,
4427,0,4625,2,
1853,4374,4626,0,
4212,4428,4627,0,
4431,0,4628,2,
1397,4374,4629,0,
1660,4374,4630,0,
4437,0,4631,2,
4293,3379,4632,0,
4437,4436,4633,0,
4438,0,4634,2,
4293,4078,4635,0,
4081,4487,4636,1,
3829,4440,4637,0,
3998,4441,4638,0,
4443,0,4639,2,
4003,4442,4640,0,
4002,4442,4641,0,
4446,4442,4642,0,
4445,4003,4643,0,
4449,4015,4644,0,
4448,0,4645,2,
4018,4451,4646,0,
4450,0,4647,2,
4453,0,4648,2,
4455,0,4649,2,
3857,4457,4650,1,
4458,4024,4651,0,
4459,3357,4652,0,
4460,3027,4653,0,
4461,3880,4654,0,
4453,4040,4655,1,
4465,0,4656,2,
4255,4464,4657,0,
4469,4468,4658,0,
4472,0,4659,2,
4474,0,4660,2,
4473,0,4661,2,
4466,4056,4662,0,
3904,4466,4663,0,
4480,0,4664,2,
3874,4478,4665,0,
4271,4476,4666,0,
4479,4061,4667,1,
4477,4060,4668,0,
4481,0,4669,2,
4467,4056,4670,0,
4469,0,4671,2,
4485,4071,4672,0,
4482,0,4673,2,
4486,0,4674,2,
4487,0,4675,2,
4456,0,4676,2,
4491,0,4677,2,
4489,4284,4678,0,
4495,4492,4679,1,
4497,3928,4680,0,
4493,0,4681,2,
4483,4479,4682,0,
4500,0,4683,2,
4498,0,4684,2,
4499,0,4685,2,
4501,0,4686,2,
4293,4492,4687,0,
4505,4300,4688,0,
4509,4303,4689,0,
4493,4297,4690,0,
4465,4100,4691,1,
4506,0,4692,2,
4507,0,4693,2,
4513,0,4694,2,
4510,3935,4695,1,
4514,0,4696,2,
4104,4511,4697,0,
4491,4111,4698,1,
4516,0,4699,2,
4519,0,4700,2,
4518,0,4701,2,
4510,4097,4702,0,
4524,0,4703,2,
4523,0,4704,2,
1505,4510,4705,0,
4522,0,4706,2,
1429,4510,4707,0,
4121,4527,4708,0,
4528,0,4709,2,
4530,0,4710,2,
4532,0,4711,2,
4475,0,4712,2,
4537,4331,4713,0,
1506,4510,4714,0,
4538,0,4715,2,
3963,4528,4716,1,
1428,4510,4717,0,
4544,0,4718,2,
4542,0,4719,2,
4545,4339,4720,0,
4551,4346,4721,0,
1583,4510,4722,0,
4552,0,4723,2,
4554,0,4724,2,
4556,0,4725,2,
4555,3971,4726,1,
4557,0,4727,2,
1498,4510,4728,0,
3971,4555,4729,0,
4561,0,4730,2,
4562,0,4731,2,
4568,0,4732,2,
4563,0,4733,2,
4565,0,4734,2,
4566,0,4735,2,
4567,0,4736,2,
4366,4572,4737,1,
4570,0,4738,2,
4571,0,4739,2,
1359,4510,4740,0,
1664,4510,4741,0,
4572,0,4742,2,
1580,4510,4743,0,
4576,0,4744,2,
4580,0,4745,2,
4581,0,4746,2,
4583,0,4747,2,
4585,0,4748,2,
4586,4377,4749,1,
1292,4510,4750,0,
4588,0,4751,2,
4377,4586,4752,0,
4593,0,4753,2,
4596,0,4754,2,
4594,0,4755,2,
1853,4510,4756,0,
4592,0,4757,2,
1663,4510,4758,0,
4598,0,4759,2,
4600,0,4760,2,
1430,4510,4761,0,
4604,0,4762,2,
4606,0,4763,2,
1660,4510,4764,0,
4605,0,4765,2,
4597,0,4766,2,
4609,0,4767,2,
4610,0,4768,2,
4609,4408,4769,0,
1855,4510,4770,0,
4614,0,4771,2,
4613,4612,4772,1,
4615,0,4773,2,
4612,0,4774,2,
1397,4510,4775,0,
4617,0,4776,2,
4616,0,4777,2,
4619,0,4778,2,
4620,0,4779,2,
4625,1487,4780,1,
4626,0,4781,2,
4622,4213,4782,1,
4627,0,4783,2,
4622,0,4784,2,
4630,0,4785,2,
4625,1487,4786,0,
4631,4218,4787,1,
4633,0,4788,2,
4632,3655,4789,0,
4634,4437,4790,1,
4438,4631,4791,0,
4635,0,4792,2,
4637,0,4793,2,
4638,0,4794,2,
4641,0,4795,2,
4639,4447,4796,0,
4640,4445,4797,0,
4645,4238,4798,0,
4648,1397,4799,0,
4647,3852,4800,0,
1397,4646,4801,1,
4650,0,4802,2,
4649,3860,4803,0,
3874,4652,4804,1,
4652,0,4805,2,
4260,4657,4806,0,
4656,1275,4807,0,
4658,0,4808,2,
4660,3914,4809,0,
4062,4661,4810,0,
4655,0,4811,2,
4267,4659,4812,0,
4667,0,4813,2,
4665,0,4814,2,
4670,0,4815,2,
1242,4672,4816,1,
4278,4671,4817,0,
4664,4674,4818,0,
4081,4675,4819,0,
4677,1238,4820,0,
4667,4496,4821,0,
4679,0,4822,2,
4666,4479,4823,0,
4502,4685,4824,0,
4683,3938,4825,0,
4636,0,4826,2,
4690,0,4827,2,
4692,4693,4828,0,
4687,0,4829,2,
4691,0,4830,2,
4695,0,4831,2,
1275,4697,4832,1,
4696,4517,4833,0,
4698,0,4834,2,
4662,0,4835,2,
4701,4521,4836,0,
4702,0,4837,2,
4529,4703,4838,0,
4705,0,4839,2,
4706,4531,4840,0,
1238,4708,4841,1,
4707,0,4842,2,
4709,4304,4843,1,
4711,4534,4844,0,
4709,4510,4845,0,
1505,4709,4846,0,
1429,4709,4847,0,
4714,0,4848,2,
4715,4543,4849,0,
4716,0,4850,2,
4717,0,4851,2,
4718,4719,4852,0,
3963,4709,4853,0,
4669,4712,4854,0,
1428,4709,4855,0,
4682,0,4856,2,
4722,0,4857,2,
4353,4723,4858,0,
4724,4558,4859,0,
4560,4725,4860,0,
4728,0,4861,2,
4729,0,4862,2,
1583,4709,4863,0,
4732,4569,4864,0,
4574,4735,4865,0,
4733,4734,4866,0,
4738,4739,4867,0,
1498,4709,4868,0,
4741,0,4869,2,
4740,0,4870,2,
1506,4709,4871,0,
4743,0,4872,2,
4154,4742,4873,0,
1580,4709,4874,0,
4584,4746,4875,0,
4381,4747,4876,0,
1359,4709,4877,0,
1430,4709,4878,0,
4750,0,4879,2,
1664,4709,4880,0,
4752,0,4881,2,
4758,0,4882,2,
4394,4755,4883,0,
4753,4597,4884,1,
4756,0,4885,2,
4400,4760,4886,0,
1292,4709,4887,0,
4761,0,4888,2,
1663,4709,4889,0,
1853,4709,4890,0,
4764,0,4891,2,
4593,4766,4892,0,
4767,4191,4893,1,
1660,4709,4894,0,
4769,0,4895,2,
4770,0,4896,2,
4771,4416,4897,0,
1855,4709,4898,0,
4410,4774,4899,0,
4205,4775,4900,1,
1397,4709,4901,0,
4776,4777,4902,0,
4775,4205,4903,0,
4781,4432,4904,0,
4780,4211,4905,1,
4782,0,4906,2,
4628,4783,4907,0,
4213,4784,4908,0,
4780,4434,4909,0,
4786,0,4910,2,
4789,3102,4911,0,
4791,0,4912,2,
4799,3856,4913,0,
4807,3894,4914,0,
4793,3701,4915,0,
4444,4794,4916,0,
4795,4229,4917,0,
4797,4796,4918,0,
4642,4796,4919,0,
4230,4793,4920,0,
4796,4446,4921,0,
4643,4796,4922,0,
4798,3719,4923,0,
4793,3701,4924,1,
4801,0,4925,2,
4023,4800,4926,0,
4027,4803,4927,0,
4804,4251,4928,1,
3739,4805,4929,0,
4251,4804,4930,0,
4657,4808,4931,0,
4067,4809,4932,0,
4810,0,4933,2,
1242,4812,4934,1,
4806,4673,4935,0,
4817,0,4936,2,
4816,0,4937,2,
4820,3933,4938,0,
4813,4495,4939,0,
4821,4495,4940,0,
4277,4814,4941,0,
4823,0,4942,2,
4101,4825,4943,0,
4816,4819,4944,1,
4679,4829,4945,0,
4686,4831,4946,0,
4832,0,4947,2,
4694,4837,4948,0,
4839,4533,4949,0,
4843,0,4950,2,
4841,0,4951,2,
4845,0,4952,2,
4835,4815,4953,0,
4846,0,4954,2,
4847,0,4955,2,
4853,0,4956,2,
4855,0,4957,2,
4726,4858,4958,1,
4858,0,4959,2,
4861,4564,4960,0,
4731,4862,4961,0,
4863,0,4962,2,
4868,0,4963,2,
4871,0,4964,2,
4870,4582,4965,0,
4873,0,4966,2,
4874,0,4967,2,
4878,0,4968,2,
4877,0,4969,2,
4880,0,4970,2,
4754,4881,4971,0,
4885,4602,4972,0,
4887,0,4973,2,
4889,0,4974,2,
4890,0,4975,2,
4892,0,4976,2,
4894,0,4977,2,
4899,0,4978,2,
4898,0,4979,2,
4900,3980,4980,1,
4901,0,4981,2,
4902,0,4982,2,
4900,4196,4983,0,
4201,4901,4984,0,
4905,4629,4985,1,
4907,0,4986,2,
4908,0,4987,2,
4905,0,4988,2,
4909,0,4989,2,
4911,0,4990,2,
4911,4634,4991,0,
4792,4911,4992,1,
4910,4989,4993,0,
4915,0,4994,2,
4916,0,4995,2,
4919,0,4996,2,
4917,3841,4997,0,
4920,0,4998,2,
4921,0,4999,2,
4913,3991,5000,1,
4923,3720,5001,0,
1575,4924,5002,0,
1854,4924,5003,0,
4913,0,5004,2,
1397,4926,5005,1,
1275,4927,5006,1,
4928,0,5007,2,
1511,4924,5008,0,
4930,0,5009,2,
4929,0,5010,2,
4931,0,5011,2,
1238,4932,5012,1,
4934,0,5013,2,
4931,4673,5014,0,
4814,4933,5015,0,
4935,4676,5016,0,
1507,4924,5017,0,
4819,4937,5018,0,
4936,4468,5019,0,
1432,4924,5020,0,
4297,4933,5021,0,
4940,0,5022,2,
1230,4943,5023,1,
4944,0,5024,2,
4954,4848,5025,0,
4548,4955,5026,0,
4356,4957,5027,0,
4958,0,5028,2,
4726,4959,5029,0,
4737,4961,5030,1,
4942,4856,5031,0,
4939,0,5032,2,
4961,0,5033,2,
4963,4869,5034,0,
4376,4964,5035,0,
4969,4879,5036,0,
4884,4971,5037,1,
4399,4970,5038,0,
4402,4973,5039,0,
4971,0,5040,2,
4975,4891,5041,0,
4415,4977,5042,0,
4980,0,5043,2,
4981,4201,5044,1,
4982,4423,5045,0,
4983,0,5046,2,
4984,0,5047,2,
4985,0,5048,2,
4982,4423,5049,1,
4629,4988,5050,0,
4990,4438,5051,1,
4991,0,5052,2,
4635,4990,5053,0,
4005,4994,5054,0,
4918,4995,5055,0,
4997,4996,5056,0,
4922,4995,5057,0,
4643,4995,5058,0,
4454,4998,5059,0,
5000,0,5060,2,
4999,4239,5061,0,
4917,4996,5062,0,
4925,5000,5063,0,
5002,0,5064,2,
5003,0,5065,2,
5005,4802,5066,1,
3991,5004,5067,0,
5005,0,5068,2,
5006,0,5069,2,
5008,0,5070,2,
5010,5009,5071,0,
5015,4277,5072,0,
4082,5013,5073,1,
5012,0,5074,2,
5014,0,5075,2,
5017,0,5076,2,
5016,0,5077,2,
4291,5013,5078,0,
5020,0,5079,2,
5021,4941,5080,0,
5023,0,5081,2,
5029,0,5082,2,
4737,5033,5083,0,
5030,0,5084,2,
5022,5032,5085,0,
4884,5040,5086,0,
5037,0,5087,2,
5044,0,5088,2,
5045,0,5089,2,
5044,4903,5090,1,
4986,5048,5091,1,
5048,4986,5092,0,
4439,4993,5093,1,
5050,0,5094,2,
4993,4439,5095,0,
4791,5051,5096,0,
5053,0,5097,2,
3836,5054,5098,1,
5055,0,5099,2,
5054,0,5100,2,
4012,5059,5101,1,
5058,0,5102,2,
5057,0,5103,2,
4801,5060,5104,1,
5064,3870,5105,0,
5063,0,5106,2,
5066,5067,5107,1,
5065,3876,5108,0,
5067,0,5109,2,
5068,4650,5110,0,
4045,5069,5111,1,
5058,3999,5112,1,
4274,5069,5113,0,
4277,5071,5114,1,
3921,5070,5115,0,
5073,0,5116,2,
4085,5074,5117,1,
4818,5075,5118,0,
5072,0,5119,2,
5076,3932,5120,0,
5078,0,5121,2,
4295,5074,5122,0,
4099,5079,5123,0,
5080,0,5124,2,
5081,4114,5125,0,
4520,5081,5126,0,
5073,5018,5127,1,
5083,0,5128,2,
5086,0,5129,2,
4903,5088,5130,0,
4621,5089,5131,0,
5090,0,5132,2,
5092,0,5133,2,
5093,0,5134,2,
5095,0,5135,2,
4436,5095,5136,1,
5096,0,5137,2,
1575,5098,5138,0,
5056,5099,5139,0,
4452,5100,5140,0,
1575,5101,5141,0,
5061,5103,5142,0,
4227,5102,5143,0,
5062,5099,5144,0,
1507,5098,5145,0,
3999,5102,5146,0,
4247,5105,5147,0,
4248,5108,5148,0,
1854,5098,5149,0,
5107,0,5150,2,
5066,5109,5151,0,
5110,0,5152,2,
5111,0,5153,2,
5112,3822,5154,1,
5112,0,5155,2,
5112,3653,5156,1,
1507,5101,5157,0,
5112,4264,5158,1,
4475,5112,5159,0,
4662,5112,5160,0,
1854,5101,5161,0,
5113,0,5162,2,
5115,4281,5163,0,
1432,5098,5164,0,
1511,5098,5165,0,
5112,4285,5166,1,
5114,0,5167,2,
4681,5119,5168,0,
5117,0,5169,2,
5118,5077,5170,0,
5018,5116,5171,0,
4682,5112,5172,0,
4296,5120,5173,0,
4939,5112,5174,0,
5123,4102,5175,0,
1511,5101,5176,0,
5112,4293,5177,1,
5124,4827,5178,0,
5126,0,5179,2,
5125,0,5180,2,
5127,0,5181,2,
1432,5101,5182,0,
4966,5128,5183,0,
4976,5129,5184,0,
5130,0,5185,2,
4624,5131,5186,1,
5131,0,5187,2,
5094,5133,5188,0,
4218,5135,5189,0,
5137,5052,5190,0,
5122,0,5191,2,
5138,0,5192,2,
5139,0,5193,2,
5140,0,5194,2,
5141,0,5195,2,
5142,0,5196,2,
5143,0,5197,2,
5144,0,5198,2,
5146,0,5199,2,
5145,0,5200,2,
1275,5147,5201,1,
5151,0,5202,2,
1397,5148,5203,1,
5149,0,5204,2,
5155,4258,5205,0,
4467,5154,5206,0,
4268,5156,5207,0,
4914,5153,5208,0,
5157,0,5209,2,
5159,0,5210,2,
5155,4483,5211,0,
4666,5158,5212,0,
5155,4266,5213,0,
5160,0,5214,2,
5155,4813,5215,0,
5161,0,5216,2,
1238,5163,5217,1,
5164,0,5218,2,
5165,0,5219,2,
4821,5166,5220,0,
5155,4503,5221,0,
5155,4822,5222,0,
5171,0,5223,2,
4297,5168,5224,1,
4938,5169,5225,0,
5170,0,5226,2,
4501,5170,5227,1,
5172,0,5228,2,
5174,0,5229,2,
1242,5173,5230,1,
5176,0,5231,2,
1230,5175,5232,1,
4945,5177,5233,0,
5178,4699,5234,0,
5180,5179,5235,0,
5182,0,5236,2,
4749,5183,5237,1,
5183,0,5238,2,
5184,0,5239,2,
4893,5184,5240,1,
5047,5185,5241,0,
5186,0,5242,2,
4624,5187,5243,0,
5134,5188,5244,1,
5188,0,5245,2,
5189,0,5246,2,
4644,5192,5247,0,
4798,5193,5248,0,
4923,5193,5249,0,
4456,5194,5250,0,
5001,5193,5251,0,
4796,5197,5252,0,
4651,5195,5253,0,
5196,4442,5254,0,
4462,5198,5255,0,
4654,5200,5256,0,
5199,4463,5257,0,
5201,0,5258,2,
5152,5202,5259,0,
5203,5007,5260,1,
5204,3889,5261,0,
5203,0,5262,2,
5205,0,5263,2,
5206,0,5264,2,
4668,5209,5265,0,
5207,0,5266,2,
5212,0,5267,2,
5210,4669,5268,0,
5211,0,5269,2,
5216,4080,5270,0,
5215,0,5271,2,
5214,4815,5272,0,
5213,0,5273,2,
5217,0,5274,2,
4680,5218,5275,0,
5220,0,5276,2,
5219,3937,5277,0,
5221,0,5278,2,
4686,5226,5279,0,
5222,0,5280,2,
5121,5223,5281,0,
4691,5230,5282,1,
4942,5228,5283,0,
1511,5227,5284,0,
5230,0,5285,2,
5022,5229,5286,0,
5224,0,5287,2,
5232,0,5288,2,
4312,5231,5289,0,
1507,5227,5290,0,
4946,5226,5291,0,
4316,5234,5292,1,
5233,0,5293,2,
5234,0,5294,2,
4698,5232,5295,0,
5236,4132,5296,0,
1575,5227,5297,0,
1432,5227,5298,0,
1854,5227,5299,0,
5237,0,5300,2,
4749,5238,5301,0,
4893,5239,5302,0,
5240,0,5303,2,
5241,0,5304,2,
5243,0,5305,2,
5244,0,5306,2,
5134,5245,5307,0,
1242,5265,5308,1,
4636,5274,5309,1,
1242,5256,5310,1,
1275,5247,5311,1,
5248,0,5312,2,
5250,0,5313,2,
5249,0,5314,2,
5251,0,5315,2,
4002,5252,5316,1,
4004,5254,5317,1,
1275,5253,5318,1,
3552,5248,5319,1,
3841,5255,5320,1,
4001,5257,5321,1,
4655,5258,5322,1,
4471,5261,5323,0,
5260,5259,5324,1,
5259,0,5325,2,
5262,4928,5326,0,
4811,5258,5327,0,
5268,0,5328,2,
4494,5270,5329,0,
5272,0,5330,2,
1230,5275,5331,1,
4508,5277,5332,0,
4826,5274,5333,0,
5281,0,5334,2,
5279,0,5335,2,
5283,0,5336,2,
4830,5285,5337,0,
5284,0,5338,2,
5289,4526,5339,0,
5290,0,5340,2,
5288,4834,5341,0,
5291,0,5342,2,
5286,0,5343,2,
4316,5294,5344,0,
5295,0,5345,2,
5292,0,5346,2,
4541,5296,5347,0,
5297,0,5348,2,
5298,0,5349,2,
5299,0,5350,2,
5301,0,5351,2,
5302,0,5352,2,
5304,4906,5353,1,
4906,5304,5354,0,
5307,0,5355,2,
5311,0,5356,2,
3552,5312,5357,0,
3715,5314,5358,0,
5313,3866,5359,1,
4653,5315,5360,0,
4460,5315,5361,0,
5318,0,5362,2,
5313,3866,5363,0,
5316,3822,5364,1,
5317,3822,5365,1,
5320,0,5366,2,
5319,0,5367,2,
3879,5316,5368,1,
3879,5317,5369,1,
5310,0,5370,2,
5321,3822,5371,1,
4806,5313,5372,0,
5321,3653,5373,1,
5316,4264,5374,1,
5322,0,5375,2,
4269,5321,5376,0,
5321,4264,5377,1,
5317,3653,5378,1,
5316,3653,5379,1,
5324,0,5380,2,
5260,5325,5381,0,
1397,5323,5382,1,
4260,5313,5383,0,
5263,5321,5384,0,
5326,0,5385,2,
5327,0,5386,2,
5317,4264,5387,1,
4490,5313,5388,0,
5308,0,5389,2,
5321,4285,5390,1,
1397,5329,5391,1,
5309,0,5392,2,
5317,4285,5393,1,
5316,4285,5394,1,
5331,0,5395,2,
5316,4293,5396,1,
5317,4293,5397,1,
1238,5332,5398,1,
5333,0,5399,2,
5319,4285,5400,1,
5335,4694,5401,0,
5321,4293,5402,1,
5282,5334,5403,0,
4914,5310,5404,1,
5337,0,5405,2,
4700,5338,5406,0,
5341,0,5407,2,
1238,5339,5408,1,
5319,4293,5409,1,
5320,4293,5410,1,
5340,4704,5411,0,
5334,5282,5412,1,
4938,5331,5413,1,
4948,5342,5414,0,
5344,0,5415,2,
5321,0,5416,2,
5317,4503,5417,0,
1230,5347,5418,1,
5316,4503,5419,0,
5348,4727,5420,0,
5349,4736,5421,0,
5350,4745,5422,0,
4895,5352,5423,0,
5353,0,5424,2,
5354,0,5425,2,
5104,5356,5426,0,
5357,0,5427,2,
5358,0,5428,2,
1575,5359,5429,0,
5361,0,5430,2,
5360,0,5431,2,
5363,0,5432,2,
5365,0,5433,2,
5364,0,5434,2,
1507,5359,5435,0,
4034,5366,5436,1,
4034,5367,5437,1,
5368,0,5438,2,
5371,4466,5439,0,
5370,5153,5440,0,
5369,0,5441,2,
5373,4266,5442,0,
5374,0,5443,2,
4056,5366,5444,1,
5372,0,5445,2,
5370,5375,5446,0,
4467,5371,5447,0,
5379,0,5448,2,
4914,5370,5449,0,
3764,5366,5450,1,
4666,5377,5451,0,
5382,0,5452,2,
4056,5367,5453,1,
5381,0,5454,2,
5377,4483,5455,0,
5378,0,5456,2,
5376,4663,5457,1,
5457,5155,5458,0,
5376,5458,5459,1,
3764,5367,5460,1,
5384,4265,5461,0,
5113,5375,5462,0,
4268,5373,5463,0,
5383,0,5464,2,
5387,0,5465,2,
5104,5356,5466,1,
5388,0,5467,2,
5390,4813,5468,0,
1854,5359,5469,0,
5391,0,5470,2,
4479,5366,5471,1,
5122,5392,5472,0,
4479,5367,5473,1,
5225,5392,5474,0,
5394,0,5475,2,
5393,0,5476,2,
4495,5366,5477,1,
1511,5359,5478,0,
5396,0,5479,2,
5398,0,5480,2,
4821,5390,5481,0,
5397,0,5482,2,
5402,4822,5483,0,
4695,5401,5484,1,
5400,4813,5485,0,
5403,0,5486,2,
4945,5402,5487,0,
5404,4947,5488,1,
5406,4836,5489,0,
5404,0,5490,2,
5235,5407,5491,0,
5409,4822,5492,0,
4838,5411,5493,0,
4945,5410,5494,0,
5408,5181,5495,1,
5408,0,5496,2,
4821,5400,5497,0,
5414,0,5498,2,
5413,0,5499,2,
5410,4822,5500,0,
4945,5409,5501,0,
4536,5415,5502,0,
4843,5414,5503,1,
4938,5395,5504,0,
4841,5413,5505,0,
1432,5359,5506,0,
5416,4503,5507,0,
5366,4503,5508,0,
5418,0,5509,2,
5367,4503,5510,0,
4860,5420,5511,0,
4865,5421,5512,0,
4875,5422,5513,0,
4772,5423,5514,1,
5423,0,5515,2,
4987,5425,5516,0,
5111,5449,5517,1,
5426,0,5518,2,
3719,5427,5519,0,
5429,0,5520,2,
3720,5428,5521,0,
3884,5431,5522,0,
3645,5430,5523,0,
5432,4257,5524,0,
5433,4466,5525,0,
4467,5434,5526,0,
5437,3904,5527,0,
4265,5436,5528,0,
5435,0,5529,2,
5439,0,5530,2,
5441,3904,5531,0,
4265,5438,5532,0,
5440,4914,5533,0,
4265,5437,5534,0,
4467,5433,5535,0,
5436,3904,5536,0,
4265,5441,5537,0,
5442,0,5538,2,
5434,4466,5539,0,
5443,4483,5540,0,
5446,5208,5541,0,
5445,4664,5542,0,
5444,4466,5543,0,
4467,5453,5544,0,
5451,0,5545,2,
5459,5438,5546,0,
5456,4266,5547,0,
5447,0,5548,2,
4268,5456,5549,0,
5448,4266,5550,0,
5385,5454,5551,0,
5114,5452,5552,1,
5450,4266,5553,0,
4268,5448,5554,0,
5455,0,5555,2,
5461,0,5556,2,
5460,4266,5557,0,
5462,0,5558,2,
4268,5450,5559,0,
4469,5464,5560,0,
5463,0,5561,2,
4666,5443,5562,0,
5465,4483,5563,0,
5453,4466,5564,0,
4467,5444,5565,0,
5019,5467,5566,0,
5167,5452,5567,0,
5468,0,5568,2,
5224,5470,5569,1,
5469,0,5570,2,
4268,5460,5571,0,
4666,5473,5572,0,
4666,5471,5573,0,
5473,4483,5574,0,
4666,5465,5575,0,
5471,4483,5576,0,
5474,5395,5577,0,
5472,0,5578,2,
5476,4813,5579,0,
4821,5475,5580,0,
5478,0,5581,2,
5475,4813,5582,0,
4821,5476,5583,0,
5477,4813,5584,0,
5481,0,5585,2,
4945,5479,5586,0,
5482,4822,5587,0,
4821,5477,5588,0,
4944,5480,5589,1,
5479,4822,5590,0,
5287,5470,5591,0,
5405,5486,5592,0,
5485,0,5593,2,
5487,0,5594,2,
5483,0,5595,2,
1507,5484,5596,0,
1511,5484,5597,0,
1238,5489,5598,1,
5488,0,5599,2,
5024,5480,5600,0,
5490,4947,5601,0,
5491,0,5602,2,
5496,5181,5603,0,
5495,0,5604,2,
5494,0,5605,2,
5492,0,5606,2,
1242,5493,5607,1,
4945,5482,5608,0,
5497,0,5609,2,
5500,0,5610,2,
5499,4951,5611,0,
4950,5498,5612,0,
4540,5502,5613,1,
1507,5503,5614,0,
5501,0,5615,2,
5117,5504,5616,1,
5502,0,5617,2,
1511,5503,5618,0,
5506,0,5619,2,
5505,0,5620,2,
1575,5484,5621,0,
1275,5511,5622,1,
1432,5484,5623,0,
1575,5503,5624,0,
1230,5512,5625,1,
1432,5503,5626,0,
1397,5513,5627,1,
1854,5484,5628,0,
1854,5503,5629,0,
5514,0,5630,2,
4772,5515,5631,0,
5049,5516,5632,1,
5516,0,5633,2,
5504,5169,5634,0,
5106,5518,5635,0,
3536,5519,5636,1,
3455,5521,5637,1,
5520,4253,5638,0,
3027,5523,5639,1,
5522,0,5640,2,
3883,5524,5641,1,
5526,0,5642,2,
5525,0,5643,2,
2440,5522,5644,1,
5528,0,5645,2,
5527,0,5646,2,
5529,4273,5647,0,
5534,0,5648,2,
5531,0,5649,2,
5532,0,5650,2,
5530,5264,5651,0,
5533,0,5652,2,
5540,0,5653,2,
5537,0,5654,2,
5536,0,5655,2,
5541,0,5656,2,
5538,5266,5657,0,
5543,0,5658,2,
5539,0,5659,2,
5542,5011,5660,0,
5535,0,5661,2,
5549,0,5662,2,
5553,0,5663,2,
5554,0,5664,2,
5555,5267,5665,0,
5547,0,5666,2,
5552,5551,5667,1,
5546,0,5668,2,
5544,0,5669,2,
5550,0,5670,2,
5517,0,5671,2,
5557,0,5672,2,
5559,0,5673,2,
5552,0,5674,2,
5551,0,5675,2,
4064,5560,5676,1,
5308,5517,5677,1,
5562,0,5678,2,
5563,0,5679,2,
5565,0,5680,2,
5564,0,5681,2,
5567,0,5682,2,
4250,5566,5683,1,
5568,5276,5684,0,
5570,4308,5685,0,
5571,0,5686,2,
5577,0,5687,2,
5399,5578,5688,0,
5573,0,5689,2,
5572,0,5690,2,
5574,0,5691,2,
5569,0,5692,2,
5576,0,5693,2,
5575,0,5694,2,
5580,0,5695,2,
5582,0,5696,2,
4315,5581,5697,0,
5583,0,5698,2,
5584,0,5699,2,
5579,0,5700,2,
5590,0,5701,2,
5586,0,5702,2,
5589,0,5703,2,
5587,0,5704,2,
5588,0,5705,2,
5591,0,5706,2,
5592,0,5707,2,
5596,0,5708,2,
5595,5293,5709,0,
5600,0,5710,2,
5597,0,5711,2,
5598,0,5712,2,
5601,0,5713,2,
5606,5605,5714,0,
5607,0,5715,2,
5608,0,5716,2,
5345,5602,5717,0,
5612,0,5718,2,
5611,0,5719,2,
5614,0,5720,2,
4540,5617,5721,0,
5616,0,5722,2,
5488,5592,5723,1,
5618,0,5724,2,
5619,4341,5725,0,
5613,0,5726,2,
5418,5616,5727,0,
5621,0,5728,2,
5622,0,5729,2,
5625,0,5730,2,
5624,0,5731,2,
5623,0,5732,2,
5627,0,5733,2,
5626,0,5734,2,
5628,0,5735,2,
5629,0,5736,2,
5631,0,5737,2,
5632,0,5738,2,
5049,5633,5739,0,
5603,0,5740,2,
5634,0,5741,2,
5681,5680,5742,0,
5741,5191,5743,0,
5107,5635,5744,1,
5635,0,5745,2,
5636,0,5746,2,
4470,5638,5747,0,
5637,0,5748,2,
5639,0,5749,2,
2440,5640,5750,0,
1575,5641,5751,0,
5644,0,5752,2,
5643,5642,5753,0,
5646,5645,5754,0,
5647,4484,5755,0,
1507,5641,5756,0,
5649,5650,5757,0,
5651,0,5758,2,
5652,5162,5759,0,
5658,5661,5760,0,
5653,5545,5761,0,
5657,0,5762,2,
4482,5660,5763,1,
5659,5548,5764,0,
5656,5386,5765,0,
5655,5654,5766,0,
5389,5671,5767,0,
5666,5664,5768,0,
5644,3822,5769,1,
5670,5561,5770,0,
5665,0,5771,2,
5663,5662,5772,0,
5668,5556,5773,0,
5674,5675,5774,0,
1575,5676,5775,0,
1507,5676,5776,0,
5672,5673,5777,0,
5679,5678,5778,0,
1507,5683,5779,0,
5639,4264,5780,1,
5644,4264,5781,1,
4515,5685,5782,0,
5693,5694,5783,0,
5637,4264,5784,1,
1575,5683,5785,0,
5637,4285,5786,1,
5644,3653,5787,1,
5688,5687,5788,0,
5691,5689,5789,0,
5636,4285,5790,1,
5699,5698,5791,0,
5697,4525,5792,0,
1854,5641,5793,0,
5700,5695,5794,0,
5696,5585,5795,0,
5704,5702,5796,0,
5593,5705,5797,0,
5684,0,5798,2,
5701,5594,5799,0,
5636,4293,5800,1,
5639,4285,5801,1,
1511,5676,5802,0,
1511,5641,5803,0,
5708,4710,5804,0,
5599,5707,5805,0,
5637,4293,5806,1,
5709,0,5807,2,
4842,5711,5808,0,
1511,5683,5809,0,
1854,5676,5810,0,
5717,0,5811,2,
5610,5716,5812,0,
5714,0,5813,2,
5644,4285,5814,1,
4952,5718,5815,0,
5720,4546,5816,0,
1432,5676,5817,0,
4851,5724,5818,0,
5722,5509,5819,0,
5721,0,5820,2,
4549,5725,5821,0,
1432,5641,5822,0,
5639,4293,5823,1,
1854,5683,5824,0,
5727,0,5825,2,
5644,4293,5826,1,
5636,4503,5827,0,
1432,5683,5828,0,
5728,4730,5829,0,
5637,4503,5830,0,
5732,4744,5831,0,
5731,4579,5832,0,
5734,4595,5833,0,
5735,4759,5834,0,
5736,4608,5835,0,
4978,5737,5836,0,
5739,0,5837,2,
5150,5745,5838,0,
5744,5362,5839,0,
4034,5746,5840,1,
1275,5747,5841,1,
4056,5748,5842,1,
4056,5746,5843,1,
4034,5748,5844,1,
5750,0,5845,2,
4034,5749,5846,1,
5753,0,5847,2,
4034,5752,5848,1,
5751,0,5849,2,
1242,5755,5850,1,
5322,5759,5851,1,
5758,5757,5852,1,
5756,0,5853,2,
5273,5766,5854,1,
5761,0,5855,2,
5764,0,5856,2,
5766,0,5857,2,
1511,5763,5858,0,
5765,5558,5859,0,
4056,5749,5860,1,
5769,4466,5861,0,
5754,0,5862,2,
5770,0,5863,2,
3764,5746,5864,1,
5757,0,5865,2,
3764,5748,5866,1,
5773,0,5867,2,
5771,5768,5868,1,
3764,5749,5869,1,
4467,5769,5870,0,
5775,0,5871,2,
5760,0,5872,2,
4479,5746,5873,1,
5774,0,5874,2,
5772,0,5875,2,
1507,5763,5876,0,
5776,0,5877,2,
5768,0,5878,2,
5742,0,5879,2,
5744,5362,5880,1,
5779,0,5881,2,
5781,4483,5882,0,
4666,5780,5883,0,
1397,5782,5884,1,
5778,0,5885,2,
5789,0,5886,2,
5786,0,5887,2,
5788,0,5888,2,
5785,0,5889,2,
5784,0,5890,2,
5790,0,5891,2,
4268,5787,5892,0,
5777,0,5893,2,
5714,5796,5894,1,
5793,0,5895,2,
5795,0,5896,2,
5783,0,5897,2,
1238,5792,5898,1,
5780,4483,5899,0,
5787,4266,5900,0,
4666,5781,5901,0,
5794,0,5902,2,
5797,0,5903,2,
4949,5804,5904,0,
5801,4813,5905,0,
5806,0,5906,2,
5800,0,5907,2,
5803,0,5908,2,
5802,0,5909,2,
5805,0,5910,2,
5808,4844,5911,0,
1575,5763,5912,0,
5809,0,5913,2,
5796,0,5914,2,
5810,0,5915,2,
5719,5811,5916,0,
5815,0,5917,2,
5767,0,5918,2,
5814,4813,5919,0,
4821,5801,5920,0,
5799,0,5921,2,
5791,0,5922,2,
5812,0,5923,2,
5025,5816,5924,0,
5819,0,5925,2,
5818,5026,5926,0,
4550,5820,5927,0,
4821,5814,5928,0,
5817,0,5929,2,
4716,5815,5930,1,
5822,0,5931,2,
1230,5821,5932,1,
5823,4822,5933,0,
5309,5743,5934,1,
5824,0,5935,2,
4945,5823,5936,0,
5826,4822,5937,0,
1432,5763,5938,0,
5788,5589,5939,1,
5828,0,5940,2,
1854,5763,5941,0,
4960,5829,5942,0,
4945,5826,5943,0,
5749,4503,5944,0,
5034,5832,5945,0,
4965,5831,5946,0,
5036,5833,5947,0,
5752,4503,5948,0,
4972,5834,5949,0,
5041,5835,5950,0,
4980,5836,5951,1,
5836,0,5952,2,
5838,0,5953,2,
5839,0,5954,2,
5840,0,5955,2,
5842,0,5956,2,
5844,0,5957,2,
5843,0,5958,2,
5841,0,5959,2,
5846,3904,5960,0,
5845,2805,5961,0,
4265,5846,5962,0,
5847,5754,5963,1,
5848,3904,5964,0,
5849,4283,5965,0,
5850,0,5966,2,
4678,5853,5967,0,
5272,5852,5968,0,
5854,5856,5969,0,
4265,5848,5970,0,
5854,5764,5971,1,
4467,5860,5972,0,
5855,5772,5973,1,
5852,0,5974,2,
5213,5857,5975,0,
5858,0,5976,2,
5466,5859,5977,1,
5866,0,5978,2,
5864,0,5979,2,
5847,5862,5980,0,
5860,4466,5981,0,
5758,5865,5982,0,
5861,0,5983,2,
5859,0,5984,2,
5868,0,5985,2,
5877,4098,5986,0,
5771,5878,5987,0,
5855,5875,5988,0,
5870,0,5989,2,
5871,4095,5990,0,
5873,0,5991,2,
5869,4266,5992,0,
5682,5874,5993,0,
5876,0,5994,2,
5880,0,5995,2,
5881,4310,5996,0,
5882,0,5997,2,
5883,0,5998,2,
5884,0,5999,2,
5889,4321,6000,0,
5887,4813,6001,0,
4821,5891,6002,0,
4666,5890,6003,0,
5892,0,6004,2,
4268,5869,6005,0,
5703,5888,6006,0,
5901,0,6007,2,
5898,0,6008,2,
5890,4483,6009,0,
5900,0,6010,2,
5899,0,6011,2,
5891,4813,6012,0,
5895,4325,6013,0,
4821,5887,6014,0,
5903,5796,6015,1,
5909,4131,6016,0,
5910,5713,6017,0,
4945,5907,6018,0,
5906,4822,6019,0,
5908,4328,6020,0,
5907,4822,6021,0,
5905,0,6022,2,
1242,5904,6023,1,
5796,5903,6024,0,
1238,5911,6025,1,
5912,0,6026,2,
5913,4337,6027,0,
5813,5914,6028,0,
5915,4136,6029,0,
5916,0,6030,2,
4850,5917,6031,0,
5920,0,6032,2,
5919,0,6033,2,
1242,5924,6034,1,
1238,5926,6035,1,
5929,4144,6036,0,
5928,0,6037,2,
5927,0,6038,2,
4345,5927,6039,1,
1511,5930,6040,0,
4945,5906,6041,0,
5932,0,6042,2,
5931,4349,6043,0,
5933,0,6044,2,
5935,4354,6045,0,
5934,0,6046,2,
5937,0,6047,2,
5936,0,6048,2,
5939,0,6049,2,
5938,0,6050,2,
5941,0,6051,2,
5940,4364,6052,0,
5943,0,6053,2,
1275,5942,6054,1,
1507,5930,6055,0,
1230,5946,6056,1,
1275,5945,6057,1,
1575,5930,6058,0,
1432,5930,6059,0,
1230,5947,6060,1,
1397,5949,6061,1,
1397,5950,6062,1,
1854,5930,6063,0,
5043,5952,6064,0,
6017,0,6065,2,
5961,1587,6066,0,
5953,5954,6067,0,
5955,3904,6068,0,
5956,4466,6069,0,
4265,5957,6070,0,
4467,5958,6071,0,
5958,4466,6072,0,
5961,0,6073,2,
5960,0,6074,2,
5962,0,6075,2,
5964,0,6076,2,
5963,5657,6077,1,
5963,0,6078,2,
4488,5965,6079,0,
5851,5966,6080,1,
5957,3904,6081,0,
4265,5955,6082,0,
5851,5966,6083,0,
5968,0,6084,2,
1242,5967,6085,1,
5974,5330,6086,0,
4467,5956,6087,0,
5969,0,6088,2,
5976,4684,6089,0,
5971,0,6090,2,
5970,0,6091,2,
5972,0,6092,2,
5975,0,6093,2,
5973,0,6094,2,
5977,0,6095,2,
5466,5984,6096,0,
5981,0,6097,2,
4268,5979,6098,0,
5979,4266,6099,0,
5978,4266,6100,0,
5982,0,6101,2,
4268,5978,6102,0,
5991,4483,6103,0,
5994,4512,6104,0,
4689,5986,6105,0,
5988,0,6106,2,
4688,5990,6107,0,
5569,5993,6108,1,
5987,0,6109,2,
5992,0,6110,2,
5993,0,6111,2,
4833,5996,6112,0,
5997,5998,6113,0,
5292,5999,6114,1,
6006,0,6115,2,
6002,0,6116,2,
6001,0,6117,2,
4840,6000,6118,0,
4666,5991,6119,0,
6003,0,6120,2,
6005,0,6121,2,
6009,0,6122,2,
5412,6008,6123,1,
4535,6013,6124,0,
6012,0,6125,2,
6014,0,6126,2,
5412,6008,6127,0,
5346,5999,6128,0,
4539,6020,6129,0,
6018,0,6130,2,
6019,0,6131,2,
6023,0,6132,2,
4713,6016,6133,0,
6021,0,6134,2,
6025,0,6135,2,
6024,0,6136,2,
6026,4547,6137,0,
4849,6027,6138,0,
6028,0,6139,2,
6030,5620,6140,0,
4720,6029,6141,0,
6031,0,6142,2,
6033,6032,6143,0,
6034,0,6144,2,
4553,6038,6145,0,
6035,0,6146,2,
4721,6036,6147,0,
4559,6043,6148,0,
6041,0,6149,2,
6040,0,6150,2,
5934,6042,6151,0,
4859,6045,6152,0,
5932,6046,6153,0,
6047,6048,6154,0,
6050,4573,6155,0,
4864,6052,6156,0,
6051,4575,6157,0,
6054,0,6158,2,
6055,0,6159,2,
6057,0,6160,2,
6056,0,6161,2,
6058,0,6162,2,
6059,0,6163,2,
6060,0,6164,2,
6061,0,6165,2,
6062,0,6166,2,
6063,0,6167,2,
6064,0,6168,2,
6067,0,6169,2,
5324,6067,6170,1,
6068,0,6171,2,
6070,0,6172,2,
6071,0,6173,2,
6069,0,6174,2,
6072,0,6175,2,
6073,1513,6176,1,
6076,6075,6177,0,
1275,6079,6178,1,
3879,6066,6179,1,
6077,5328,6180,0,
6078,5762,6181,0,
6081,0,6182,2,
5767,6080,6183,0,
6080,5677,6184,0,
6082,0,6185,2,
5867,6084,6186,0,
6083,0,6187,2,
6085,0,6188,2,
6089,4824,6189,0,
6087,0,6190,2,
6090,5865,6191,0,
5983,6092,6192,0,
6088,6093,6193,0,
6086,0,6194,2,
6077,5268,6195,1,
5971,6101,6196,0,
6099,0,6197,2,
6100,0,6198,2,
6098,0,6199,2,
6085,6095,6200,1,
6066,3822,6201,1,
6096,0,6202,2,
6102,0,6203,2,
4828,6104,6204,0,
6103,0,6205,2,
1275,6107,6206,1,
1242,6105,6207,1,
6066,3653,6208,1,
5692,6111,6209,0,
1242,6112,6210,1,
6113,0,6211,2,
6119,0,6212,2,
6114,0,6213,2,
5710,6115,6214,0,
6010,6121,6215,0,
6117,6116,6216,0,
1275,6118,6217,1,
6011,6120,6218,0,
6123,5604,6219,0,
5603,6123,6220,0,
1397,6124,6221,1,
6125,5609,6222,0,
6128,0,6223,2,
6022,6126,6224,0,
6127,0,6225,2,
6066,4264,6226,1,
6134,5615,6227,0,
1238,6133,6228,1,
1238,6129,6229,1,
6131,6130,6230,0,
6065,5677,6231,0,
6065,5677,6232,1,
4852,6137,6233,0,
1238,6138,6234,1,
1397,6141,6235,1,
6140,0,6236,2,
6066,4285,6237,1,
4956,6142,6238,0,
1230,6147,6239,1,
6145,0,6240,2,
6044,6149,6241,0,
4857,6150,6242,0,
1230,6148,6243,1,
6151,0,6244,2,
1397,6152,6245,1,
6153,0,6246,2,
6143,0,6247,2,
4866,6155,6248,0,
6154,0,6249,2,
1230,6156,6250,1,
4867,6157,6251,0,
6159,4872,6252,0,
6066,4293,6253,1,
6162,4882,6254,0,
6163,4888,6255,0,
6167,4896,6256,0,
5046,6168,6257,0,
6182,6185,6258,0,
6170,5959,6259,0,
5380,6169,6260,0,
6171,5648,6261,0,
6174,6173,6262,0,
6074,6172,6263,0,
3879,6176,6264,1,
6176,3822,6265,1,
6175,5669,6266,0,
6180,0,6267,2,
6181,0,6268,2,
6178,0,6269,2,
4265,6179,6270,0,
6184,6065,6271,0,
6179,3904,6272,0,
6183,0,6273,2,
6188,6095,6274,0,
6186,0,6275,2,
6193,0,6276,2,
1238,6189,6277,1,
6195,0,6278,2,
6192,0,6279,2,
6097,6190,6280,0,
6191,5758,6281,0,
6193,6195,6282,0,
6196,0,6283,2,
6110,6203,6284,0,
6198,6199,6285,0,
6200,0,6286,2,
6176,3653,6287,1,
6197,5686,6288,0,
4467,6201,6289,0,
1242,6204,6290,1,
6205,5690,6291,0,
6207,5995,6292,1,
6207,0,6293,2,
6206,0,6294,2,
6176,4264,6295,1,
6208,4266,6296,0,
6209,0,6297,2,
6177,0,6298,2,
6170,5959,6299,1,
6210,0,6300,2,
4268,6208,6301,0,
6211,5894,6302,1,
6201,4466,6303,0,
6216,0,6304,2,
6015,6215,6305,1,
6214,0,6306,2,
6217,0,6307,2,
6215,0,6308,2,
6122,6212,6309,0,
6221,0,6310,2,
6220,0,6311,2,
6218,0,6312,2,
6222,0,6313,2,
6226,4483,6314,0,
6211,5894,6315,0,
6228,0,6316,2,
6231,0,6317,2,
6176,4285,6318,1,
6230,0,6319,2,
6229,0,6320,2,
6234,0,6321,2,
1275,6233,6322,1,
6224,0,6323,2,
4666,6226,6324,0,
6236,5925,6325,0,
6227,0,6326,2,
6235,0,6327,2,
6237,4813,6328,0,
6238,0,6329,2,
6239,0,6330,2,
5495,6214,6331,1,
6242,5027,6332,0,
6176,4293,6333,1,
6243,0,6334,2,
6245,0,6335,2,
6241,0,6336,2,
4150,6238,6337,1,
4821,6237,6338,0,
1230,6248,6339,1,
1397,6251,6340,1,
6250,0,6341,2,
5035,6252,6342,0,
6253,4822,6343,0,
5038,6254,6344,0,
5039,6255,6345,0,
6176,4503,6346,0,
4945,6253,6347,0,
5042,6256,6348,0,
5090,6257,6349,1,
6257,0,6350,2,
6260,0,6351,2,
6259,0,6352,2,
5269,6261,6353,1,
6262,0,6354,2,
5271,6263,6355,1,
6264,0,6356,2,
6265,0,6357,2,
6270,0,6358,2,
6268,6267,6359,0,
5742,6258,6360,1,
6261,0,6361,2,
6263,0,6362,2,
6266,0,6363,2,
6271,0,6364,2,
6187,6273,6365,0,
6258,0,6366,2,
6272,0,6367,2,
6194,6275,6368,0,
6274,0,6369,2,
6276,6278,6370,0,
6277,0,6371,2,
6281,0,6372,2,
6280,0,6373,2,
6289,0,6374,2,
6287,0,6375,2,
6295,0,6376,2,
6285,0,6377,2,
6293,5880,6378,0,
6290,0,6379,2,
5706,6297,6380,0,
6288,0,6381,2,
6296,0,6382,2,
6299,6300,6383,0,
6299,6300,6384,1,
6301,0,6385,2,
6303,0,6386,2,
6015,6308,6387,0,
6291,0,6388,2,
6305,0,6389,2,
6309,0,6390,2,
6219,6306,6391,0,
6284,0,6392,2,
6311,6225,6393,0,
5613,6310,6394,1,
6315,0,6395,2,
6314,0,6396,2,
6232,6316,6397,1,
6232,6316,6398,0,
6318,0,6399,2,
6317,5918,6400,0,
5723,6320,6401,0,
5723,6320,6402,1,
5726,6310,6403,0,
6322,0,6404,2,
6039,6327,6405,0,
6324,0,6406,2,
6325,0,6407,2,
6328,0,6408,2,
6039,6327,6409,1,
4355,6329,6410,0,
6331,6330,6411,0,
5939,6334,6412,0,
6333,0,6413,2,
1238,6332,6414,1,
1511,6337,6415,0,
6331,0,6416,2,
6338,0,6417,2,
6339,0,6418,2,
6340,0,6419,2,
1507,6337,6420,0,
1242,6342,6421,1,
1432,6337,6422,0,
6343,0,6423,2,
1575,6337,6424,0,
1275,6344,6425,1,
1230,6345,6426,1,
6346,0,6427,2,
6347,0,6428,2,
6347,4293,6429,0,
1397,6348,6430,1,
1854,6337,6431,0,
5132,6350,6432,0,
5604,6306,6433,0,
6351,6352,6434,0,
6353,5760,6435,1,
6356,3904,6436,0,
6355,6266,6437,1,
6354,6177,6438,1,
6357,4466,6439,0,
4265,6356,6440,0,
6359,0,6441,2,
6353,5872,6442,0,
6358,4504,6443,0,
5985,6360,6444,0,
6355,6363,6445,0,
5211,6361,6446,0,
5215,6362,6447,0,
5879,6366,6448,0,
6365,6364,6449,0,
5868,6360,6450,1,
6202,6369,6451,0,
6368,0,6452,2,
6370,0,6453,2,
4268,6375,6454,0,
6375,4266,6455,0,
6374,4835,6456,0,
6378,0,6457,2,
6354,6298,6458,0,
6376,4483,6459,0,
4467,6357,6460,0,
6114,6380,6461,1,
6380,0,6462,2,
6385,4712,6463,0,
4666,6376,6464,0,
6391,0,6465,2,
6387,0,6466,2,
6383,0,6467,2,
6139,6395,6468,0,
6397,0,6469,2,
6080,6400,6470,1,
6394,0,6471,2,
6398,0,6472,2,
6401,0,6473,2,
6399,4813,6474,0,
6403,0,6475,2,
4821,6399,6476,0,
6406,4856,6477,0,
6405,0,6478,2,
6407,5825,6479,0,
6410,0,6480,2,
6411,0,6481,2,
6414,0,6482,2,
6412,0,6483,2,
6413,4822,6484,0,
6415,0,6485,2,
6239,6416,6486,0,
6417,5032,6487,0,
6420,0,6488,2,
4945,6413,6489,0,
6422,0,6490,2,
6421,0,6491,2,
6424,0,6492,2,
6425,0,6493,2,
6426,0,6494,2,
6427,6347,6495,1,
6346,6428,6496,0,
6430,0,6497,2,
6431,0,6498,2,
6432,0,6499,2,
6433,0,6500,2,
5667,6434,6501,1,
6435,0,6502,2,
6434,0,6503,2,
6438,5777,6504,1,
6436,0,6505,2,
6437,0,6506,2,
6439,0,6507,2,
6440,0,6508,2,
6444,0,6509,2,
6446,0,6510,2,
6442,0,6511,2,
6447,0,6512,2,
6445,0,6513,2,
5278,6443,6514,1,
6449,0,6515,2,
6200,6449,6516,1,
6450,0,6517,2,
6450,5283,6518,1,
6451,0,6519,2,
6283,6452,6520,0,
6438,0,6521,2,
6292,6451,6522,1,
6456,0,6523,2,
6455,0,6524,2,
6454,0,6525,2,
6459,0,6526,2,
6460,0,6527,2,
6213,6462,6528,0,
6443,0,6529,2,
6136,6466,6530,0,
6464,0,6531,2,
6393,6465,6532,0,
6319,6463,6533,1,
6473,6472,6534,0,
6474,0,6535,2,
6469,6472,6536,0,
6470,6321,6537,1,
6468,0,6538,2,
6470,0,6539,2,
6463,0,6540,2,
6476,0,6541,2,
6240,6478,6542,0,
6479,0,6543,2,
4357,6480,6544,0,
6481,6049,6545,0,
6484,0,6546,2,
6481,6483,6547,0,
6486,0,6548,2,
4962,6485,6549,0,
6477,0,6550,2,
6488,4967,6551,0,
6489,0,6552,2,
6490,4968,6553,0,
6492,4974,6554,0,
6487,0,6555,2,
6496,0,6556,2,
6498,4979,6557,0,
6500,5740,6558,0,
6501,0,6559,2,
5863,6502,6560,1,
5667,6503,6561,0,
6505,6091,6562,0,
6504,5778,6563,1,
6094,6506,6564,0,
6367,6508,6565,0,
5973,6506,6566,1,
6502,5863,6567,0,
6507,5989,6568,0,
6512,6513,6569,0,
6510,6511,6570,0,
6509,6109,6571,0,
6442,6518,6572,0,
6517,5336,6573,0,
6516,6371,6574,0,
6286,6515,6575,0,
6446,6518,6576,0,
6520,0,6577,2,
6292,6519,6578,0,
6504,5885,6579,0,
6521,5893,6580,0,
6382,6525,6581,0,
6523,5796,6582,1,
6524,6004,6583,0,
6522,0,6584,2,
6526,6007,6585,0,
6386,6527,6586,0,
6528,0,6587,2,
5796,6523,6588,0,
5221,6529,6589,0,
6532,0,6590,2,
6396,6531,6591,0,
6530,0,6592,2,
6535,6037,6593,0,
6537,0,6594,2,
6536,0,6595,2,
6533,0,6596,2,
6408,6541,6597,0,
6319,6540,6598,0,
6539,6321,6599,0,
6542,0,6600,2,
6516,6371,6601,1,
6244,6543,6602,0,
6544,0,6603,2,
4958,6542,6604,1,
6558,6123,6605,1,
6545,6243,6606,0,
6532,6402,6607,1,
6546,6053,6608,0,
6549,4577,6609,0,
4155,6544,6610,1,
4587,6551,6611,0,
6423,6552,6612,0,
4599,6553,6613,0,
4607,6554,6614,0,
4618,6557,6615,0,
6269,6559,6616,0,
6560,5980,6617,1,
6561,0,6618,2,
5280,6562,6619,1,
5980,6560,6620,0,
6563,5684,6621,1,
6564,0,6622,2,
6279,6565,6623,1,
6514,6568,6624,1,
6567,0,6625,2,
6566,6448,6626,1,
6571,0,6627,2,
6562,0,6628,2,
6566,0,6629,2,
6569,0,6630,2,
6518,6570,6631,1,
6573,0,6632,2,
6574,0,6633,2,
6575,0,6634,2,
6572,0,6635,2,
6178,6559,6636,1,
6578,0,6637,2,
6563,0,6638,2,
6576,0,6639,2,
6565,0,6640,2,
6579,0,6641,2,
6580,0,6642,2,
6582,6583,6643,1,
6302,6581,6644,1,
6583,0,6645,2,
6585,0,6646,2,
6586,0,6647,2,
6568,0,6648,2,
6305,6586,6649,1,
6588,0,6650,2,
6581,0,6651,2,
6223,6587,6652,0,
6589,0,6653,2,
6402,6590,6654,0,
6533,6591,6655,1,
6591,0,6656,2,
6594,6595,6657,0,
6593,0,6658,2,
6598,0,6659,2,
6597,0,6660,2,
6599,0,6661,2,
6602,0,6662,2,
5028,6600,6663,0,
6604,6335,6664,1,
4363,6603,6665,0,
6604,6335,6666,0,
6605,0,6667,2,
6606,0,6668,2,
6608,0,6669,2,
6607,0,6670,2,
1238,6609,6671,1,
1507,6610,6672,0,
1511,6610,6673,0,
1242,6611,6674,1,
1432,6610,6675,0,
6612,0,6676,2,
1230,6613,6677,1,
1275,6614,6678,1,
1575,6610,6679,0,
1397,6615,6680,1,
1854,6610,6681,0,
6616,0,6682,2,
6617,6441,6683,0,
6621,5286,6684,1,
6619,6280,6685,1,
6106,6622,6686,0,
6620,0,6687,2,
6617,0,6688,2,
6626,0,6689,2,
6624,6284,6690,1,
6623,6285,6691,1,
6623,0,6692,2,
6619,6373,6693,0,
6448,6629,6694,0,
5222,6628,6695,0,
6636,6379,6696,1,
6635,6632,6697,0,
6633,6634,6698,0,
6636,0,6699,2,
6626,6571,6700,1,
6631,0,6701,2,
6621,5343,6702,0,
6638,5798,6703,0,
6279,6640,6704,0,
6457,6637,6705,0,
6642,6641,6706,0,
6644,0,6707,2,
6643,6218,6708,1,
6646,6463,6709,1,
6624,0,6710,2,
6582,6645,6711,0,
6643,0,6712,2,
6514,6648,6713,0,
6649,6390,6714,0,
6649,6309,6715,1,
6389,6647,6716,0,
6302,6651,6717,0,
6394,6652,6718,1,
6652,0,6719,2,
6654,0,6720,2,
6655,6143,6721,1,
6463,6646,6722,0,
6658,6477,6723,1,
6596,6656,6724,0,
6660,6477,6725,1,
6477,6658,6726,0,
6655,6247,6727,0,
6663,0,6728,2,
6662,6246,6729,0,
6665,0,6730,2,
6666,0,6731,2,
6667,0,6732,2,
6660,6550,6733,0,
6548,6668,6734,0,
6670,6418,6735,0,
6670,0,6736,2,
6667,6341,6737,0,
6669,6487,6738,1,
6671,0,6739,2,
6673,0,6740,2,
6672,0,6741,2,
6674,0,6742,2,
6675,0,6743,2,
6676,6487,6744,1,
6487,6669,6745,0,
6677,0,6746,2,
6676,6555,6747,0,
6678,0,6748,2,
6679,0,6749,2,
6680,0,6750,2,
6681,0,6751,2,
6618,6682,6752,0,
6683,0,6753,2,
6685,6288,6754,1,
6684,0,6755,2,
6684,6569,6756,1,
6686,0,6757,2,
6687,6625,6758,0,
6359,6688,6759,0,
6690,6291,6760,1,
6691,5789,6761,1,
6627,6689,6762,0,
6694,0,6763,2,
6685,0,6764,2,
6691,5886,6765,0,
6692,6377,6766,0,
6693,0,6767,2,
6695,0,6768,2,
6696,0,6769,2,
6697,6639,6770,0,
6522,6698,6771,1,
6698,0,6772,2,
6705,0,6773,2,
6703,0,6774,2,
6702,0,6775,2,
6699,6379,6776,0,
6700,0,6777,2,
6708,6222,6778,1,
6304,6707,6779,1,
6384,6705,6780,1,
6706,0,6781,2,
6712,6312,6782,0,
6708,6313,6783,0,
6709,6224,6784,1,
6711,0,6785,2,
6690,6388,6786,0,
6710,6392,6787,0,
6713,0,6788,2,
6304,6707,6789,0,
6715,5507,6790,1,
6716,0,6791,2,
6714,0,6792,2,
6715,0,6793,2,
6717,0,6794,2,
6709,6323,6795,0,
6471,6719,6796,0,
6722,0,6797,2,
6721,5510,6798,1,
6534,6720,6799,0,
6721,0,6800,2,
6724,0,6801,2,
6723,6241,6802,1,
6723,6336,6803,0,
6725,6154,6804,1,
6473,6720,6805,0,
6727,0,6806,2,
6726,0,6807,2,
6729,0,6808,2,
5082,6728,6809,0,
4369,6730,6810,0,
6725,0,6811,2,
6250,6732,6812,0,
6733,0,6813,2,
6738,5944,6814,1,
6737,0,6815,2,
6735,0,6816,2,
6339,6736,6817,0,
6741,4385,6818,0,
4384,6740,6819,0,
5944,6738,6820,0,
6743,4397,6821,0,
6745,0,6822,2,
6744,5948,6823,1,
6744,0,6824,2,
6747,0,6825,2,
6749,4412,6826,0,
6751,4429,6827,0,
6774,6775,6828,0,
6108,6752,6829,1,
6753,6372,6830,0,
6752,0,6831,2,
6282,6753,6832,0,
6756,6757,6833,0,
6755,6630,6834,0,
6758,6631,6835,0,
6754,5783,6836,1,
6759,0,6837,2,
6762,0,6838,2,
6760,5791,6839,1,
6761,5794,6840,1,
6758,0,6841,2,
6765,0,6842,2,
6768,6767,6843,0,
6766,0,6844,2,
6764,6381,6845,0,
6754,5897,6846,0,
6761,0,6847,2,
6756,6686,6848,1,
6770,0,6849,2,
6384,6769,6850,0,
5712,6771,6851,0,
6584,6772,6852,0,
6383,6769,6853,0,
6770,6777,6854,0,
6776,0,6855,2,
6384,6773,6856,0,
6780,0,6857,2,
6779,5417,6858,1,
6778,5812,6859,1,
6783,0,6860,2,
6782,0,6861,2,
6784,6227,6862,1,
6650,6785,6863,0,
6787,0,6864,2,
6786,0,6865,2,
6653,6788,6866,0,
6791,6792,6867,0,
6790,3879,6868,1,
6790,0,6869,2,
6760,0,6870,2,
6778,0,6871,2,
6789,0,6872,2,
5507,6793,6873,0,
5417,6779,6874,0,
6784,0,6875,2,
6795,0,6876,2,
6796,0,6877,2,
6799,0,6878,2,
6798,4854,6879,1,
6802,5827,6880,1,
6800,5367,6881,0,
6659,6801,6882,0,
6802,0,6883,2,
6798,0,6884,2,
6805,0,6885,2,
6771,0,6886,2,
6803,0,6887,2,
6804,5830,6888,1,
6547,6808,6889,0,
5030,6809,6890,1,
6811,6249,6891,0,
6810,0,6892,2,
4372,6810,6893,1,
5830,6804,6894,0,
6809,0,6895,2,
6812,0,6896,2,
6817,0,6897,2,
6819,4591,6898,0,
4589,6818,6899,0,
6820,0,6900,2,
4603,6821,6901,0,
6823,5085,6902,1,
6824,5752,6903,0,
6823,0,6904,2,
4611,6826,6905,0,
4623,6827,6906,0,
1397,6906,6907,1,
6829,0,6908,2,
6108,6831,6909,0,
6830,6453,6910,0,
6832,0,6911,2,
6834,0,6912,2,
6833,0,6913,2,
6836,0,6914,2,
6836,5795,6915,1,
6835,0,6916,2,
6840,5709,6917,1,
6839,5799,6918,1,
6763,6838,6919,0,
6841,6701,6920,0,
6845,0,6921,2,
6846,0,6922,2,
6848,6763,6923,0,
6844,6842,6924,0,
6847,5902,6925,0,
6840,5807,6926,0,
6848,0,6927,2,
6843,0,6928,2,
6853,0,6929,2,
6852,0,6930,2,
6851,0,6931,2,
6850,6773,6932,0,
6700,6849,6933,0,
6828,0,6934,2,
6854,0,6935,2,
6858,4953,6936,1,
6859,5419,6937,1,
6856,0,6938,2,
6864,6865,6939,0,
6862,5508,6940,1,
6861,6860,6941,0,
6866,0,6942,2,
5419,6859,6943,0,
6868,0,6944,2,
6863,0,6945,2,
6871,5923,6946,0,
6870,5922,6947,0,
6839,5921,6948,0,
3879,6869,6949,0,
6794,6872,6950,0,
6868,6866,6951,1,
6867,0,6952,2,
4953,6858,6953,0,
6873,0,6954,2,
6874,0,6955,2,
5508,6862,6956,0,
6875,6326,6957,0,
6797,6876,6958,0,
6475,6877,6959,0,
6657,6878,6960,0,
6881,4503,6961,0,
6882,0,6962,2,
6880,0,6963,2,
6879,0,6964,2,
4854,6884,6965,0,
5827,6883,6966,0,
6880,6882,6967,1,
5598,6886,6968,1,
6888,5031,6969,1,
6807,6887,6970,0,
6885,6469,6971,1,
6889,0,6972,2,
6890,0,6973,2,
1511,6893,6974,0,
5031,6888,6975,0,
6397,6885,6976,0,
6891,0,6977,2,
4578,6892,6978,0,
6894,0,6979,2,
5084,6895,6980,0,
6419,6890,6981,0,
1432,6893,6982,0,
1238,6898,6983,1,
1242,6899,6984,1,
1507,6893,6985,0,
1230,6901,6986,1,
6822,6900,6987,0,
6903,4503,6988,0,
6902,0,6989,2,
5085,6904,6990,0,
1575,6893,6991,0,
1275,6905,6992,1,
1854,6893,6993,0,
6294,6908,6994,0,
6909,0,6995,2,
6910,6577,6996,0,
6911,6837,6997,0,
6458,6915,6998,0,
6914,5896,6999,0,
6912,6913,7000,0,
6206,6908,7001,1,
6918,6704,7002,1,
6915,6458,7003,1,
6917,4293,7004,1,
6919,0,7005,2,
6917,0,7006,2,
6921,6922,7007,0,
6923,6838,7008,0,
6926,0,7009,2,
6925,0,7010,2,
6920,0,7011,2,
6924,0,7012,2,
6929,6855,7013,0,
6932,0,7014,2,
6931,6930,7015,0,
6933,0,7016,2,
6938,6467,7017,0,
6937,6530,7018,1,
6936,6863,7019,1,
6941,0,7020,2,
6940,6468,7021,1,
6918,0,7022,2,
6939,0,7023,2,
6953,0,7024,2,
6950,0,7025,2,
6947,0,7026,2,
6948,0,7027,2,
6937,6592,7028,0,
6949,0,7029,2,
6946,0,7030,2,
6943,0,7031,2,
6936,6945,7032,0,
6944,6942,7033,0,
6951,6939,7034,1,
6957,0,7035,2,
6956,0,7036,2,
6940,6538,7037,0,
6879,6958,7038,1,
6409,6959,7039,1,
6960,0,7040,2,
6959,0,7041,2,
6958,0,7042,2,
6961,0,7043,2,
6963,6962,7044,0,
6965,0,7045,2,
6966,0,7046,2,
6969,6970,7047,1,
6971,0,7048,2,
6970,0,7049,2,
6971,5625,7050,0,
6734,6972,7051,0,
6340,6973,7052,1,
6975,0,7053,2,
6813,6977,7054,0,
6974,0,7055,2,
6978,0,7056,2,
6976,0,7057,2,
6981,0,7058,2,
6980,0,7059,2,
6982,0,7060,2,
6983,0,7061,2,
6985,0,7062,2,
6984,0,7063,2,
6902,6987,7064,1,
6986,0,7065,2,
6987,0,7066,2,
6988,0,7067,2,
6990,0,7068,2,
6991,0,7069,2,
6992,0,7070,2,
6993,0,7071,2,
6907,0,7072,2,
7003,6706,7073,1,
6994,0,7074,2,
6997,6916,7075,0,
6996,0,7076,2,
6999,0,7077,2,
6998,0,7078,2,
7000,0,7079,2,
7006,4503,7080,0,
7004,6928,7081,0,
7004,6843,7082,1,
7005,6927,7083,0,
7001,0,7084,2,
7002,0,7085,2,
7008,0,7086,2,
7007,0,7087,2,
7001,5715,7088,1,
7010,7009,7089,0,
6780,7015,7090,1,
7015,0,7091,2,
7013,7014,7092,0,
7003,6781,7093,0,
7019,0,7094,2,
7018,0,7095,2,
6696,7017,7096,1,
6951,7023,7097,0,
6704,7022,7098,0,
7021,0,7099,2,
7028,0,7100,2,
6955,7024,7101,0,
7032,0,7102,2,
7030,7031,7103,0,
7033,0,7104,2,
7026,7027,7105,0,
6954,7029,7106,0,
7034,0,7107,2,
7037,0,7108,2,
7035,7036,7109,0,
7039,0,7110,2,
6661,7040,7111,0,
6409,7041,7112,0,
6964,7042,7113,0,
7044,0,7114,2,
6806,7043,7115,0,
7047,0,7116,2,
5730,7048,7117,0,
6969,7049,7118,0,
7051,0,7119,2,
7050,0,7120,2,
6979,7053,7121,0,
6814,7054,7122,1,
7055,4380,7123,0,
7057,6472,7124,0,
4748,7056,7125,0,
7059,7058,7126,0,
7052,0,7127,2,
7040,6161,7128,0,
6160,7052,7129,0,
4393,7060,7130,0,
7054,0,7131,2,
7062,4401,7132,0,
6989,7066,7133,0,
6825,7067,7134,0,
7069,4414,7135,0,
7071,4430,7136,0,
6995,7074,7137,0,
6828,7073,7138,1,
7075,7076,7139,0,
7077,7078,7140,0,
7073,0,7141,2,
7082,0,7142,2,
7083,0,7143,2,
7080,0,7144,2,
7081,0,7145,2,
7012,7085,7146,1,
7082,7007,7147,1,
7084,5715,7148,0,
7088,5607,7149,0,
6935,7086,7150,0,
6135,7090,7151,0,
6857,7091,7152,0,
7093,0,7153,2,
6952,7095,7154,0,
7020,7094,7155,0,
7089,0,7156,2,
7012,7085,7157,0,
7025,7099,7158,1,
7020,7094,7159,1,
6952,7095,7160,1,
7097,0,7161,2,
7098,0,7162,2,
7034,7105,7163,1,
7025,7099,7164,0,
7106,0,7165,2,
7103,0,7166,2,
7105,0,7167,2,
7101,0,7168,2,
7092,0,7169,2,
7088,0,7170,2,
7038,7109,7171,1,
7112,0,7172,2,
7111,0,7173,2,
7112,6664,7174,0,
7109,0,7175,2,
6664,7110,7176,0,
7113,0,7177,2,
6967,7115,7178,1,
7046,7114,7179,0,
7090,0,7180,2,
7115,0,7181,2,
7117,0,7182,2,
6815,7119,7183,0,
7120,6896,7184,0,
7125,4160,7185,1,
7118,0,7186,2,
7122,7121,7187,1,
7123,4876,7188,0,
7125,0,7189,2,
7124,6537,7190,0,
7126,0,7191,2,
6057,7127,7192,0,
5237,7126,7193,1,
7129,0,7194,2,
7130,4883,7195,0,
7121,0,7196,2,
7122,0,7197,2,
7132,4886,7198,0,
6814,7131,7199,0,
7133,0,7200,2,
7134,0,7201,2,
6495,7134,7202,1,
4897,7135,7203,0,
4904,7136,7204,0,
6461,7137,7205,1,
7138,7079,7206,0,
7137,0,7207,2,
7138,0,7208,2,
7139,0,7209,2,
7140,0,7210,2,
7148,0,7211,2,
7144,7145,7212,0,
7146,7089,7213,1,
7141,6934,7214,0,
7142,7087,7215,0,
7149,0,7216,2,
7147,7140,7217,1,
7151,0,7218,2,
7152,0,7219,2,
7154,0,7220,2,
7155,0,7221,2,
7157,0,7222,2,
7146,7156,7223,0,
7104,7161,7224,0,
7160,7106,7225,1,
7158,7101,7226,1,
7159,7103,7227,1,
7164,0,7228,2,
7159,7166,7229,0,
7158,7168,7230,0,
7160,7165,7231,0,
7107,7167,7232,0,
7169,7170,7233,1,
7171,0,7234,2,
7169,7170,7235,0,
7038,7175,7236,0,
7174,0,7237,2,
7045,7177,7238,0,
7179,0,7239,2,
7178,0,7240,2,
6967,7181,7241,0,
6025,7180,7242,1,
7182,6816,7243,0,
7047,7179,7244,1,
1511,7185,7245,0,
7184,6897,7246,0,
7183,0,7247,2,
1238,7188,7248,1,
7190,0,7249,2,
4590,7189,7250,0,
7193,5733,7251,1,
5300,7191,7252,0,
7192,0,7253,2,
7193,5733,7254,0,
4601,7189,7255,0,
1230,7195,7256,1,
7197,7196,7257,0,
1432,7185,7258,0,
1507,7185,7259,0,
7199,0,7260,2,
1242,7198,7261,1,
7189,4374,7262,0,
7068,7200,7263,0,
7202,0,7264,2,
6495,7201,7265,0,
1275,7203,7266,1,
1575,7185,7267,0,
1854,7185,7268,0,
1397,7204,7269,1,
7205,0,7270,2,
7206,0,7271,2,
6461,7207,7272,0,
7209,7011,7273,0,
7000,7208,7274,0,
7147,7210,7275,0,
7092,7211,7276,0,
7215,0,7277,2,
7212,0,7278,2,
7214,0,7279,2,
7213,0,7280,2,
7217,0,7281,2,
7218,7219,7282,0,
7162,7222,7283,0,
7102,7221,7284,0,
7100,7220,7285,0,
7223,0,7286,2,
7226,0,7287,2,
7225,0,7288,2,
7227,0,7289,2,
7224,0,7290,2,
7108,7228,7291,0,
7230,0,7292,2,
7231,0,7293,2,
7229,0,7294,2,
7232,0,7295,2,
7235,0,7296,2,
7236,0,7297,2,
7237,6731,7298,0,
7178,7238,7299,1,
7238,0,7300,2,
7116,7239,7301,0,
7241,0,7302,2,
7243,0,7303,2,
7245,0,7304,2,
7246,7247,7305,0,
7128,7249,7306,0,
7248,0,7307,2,
7249,7040,7308,0,
7250,0,7309,2,
7253,7251,7310,0,
7252,0,7311,2,
7255,0,7312,2,
7254,0,7313,2,
7256,0,7314,2,
7257,0,7315,2,
7259,0,7316,2,
7261,0,7317,2,
7258,0,7318,2,
1507,7262,7319,0,
7263,0,7320,2,
7202,7263,7321,1,
7265,0,7322,2,
7266,0,7323,2,
7267,0,7324,2,
7262,1854,7325,0,
1575,7262,7326,0,
7268,0,7327,2,
7269,5424,7328,1,
7269,0,7329,2,
6217,7270,7330,1,
6307,7270,7331,0,
7273,7016,7332,0,
7274,0,7333,2,
7272,0,7334,2,
7271,7143,7335,0,
7275,0,7336,2,
7153,7279,7337,0,
7278,7280,7338,1,
7276,0,7339,2,
7096,7282,7340,1,
7282,0,7341,2,
7278,7280,7342,0,
7283,0,7343,2,
7284,0,7344,2,
7163,7283,7345,1,
7285,0,7346,2,
7290,7288,7347,0,
7291,0,7348,2,
7290,7288,7349,1,
7296,7211,7350,0,
7240,7300,7351,0,
7301,0,7352,2,
7120,7303,7353,0,
7304,4751,7354,0,
7305,0,7355,2,
4757,7309,7356,0,
7298,0,7357,2,
7308,0,7358,2,
7306,0,7359,2,
5351,7311,7360,0,
4762,7312,7361,0,
7260,7315,7362,0,
4765,7318,7363,0,
7316,4763,7364,0,
7319,0,7365,2,
7264,7320,7366,0,
7322,6556,7367,0,
4773,7324,7368,0,
7325,0,7369,2,
7326,0,7370,2,
4785,7327,7371,0,
7329,5353,7372,0,
7330,6132,7373,1,
7331,0,7374,2,
7150,7333,7375,0,
7332,0,7376,2,
7335,0,7377,2,
7277,7336,7378,0,
7330,0,7379,2,
7337,0,7380,2,
7217,7337,7381,1,
7340,0,7382,2,
7096,7341,7383,0,
7342,0,7384,2,
7344,7287,7385,0,
7346,7289,7386,0,
7345,0,7387,2,
7163,7343,7388,0,
7347,0,7389,2,
7348,7234,7390,1,
7346,7289,7391,1,
7344,7287,7392,1,
7348,7234,7393,0,
7351,0,7394,2,
7186,7352,7395,0,
7353,0,7396,2,
7354,4392,7397,0,
6056,7358,7398,0,
7310,7357,7399,0,
1238,7356,7400,1,
5037,7360,7401,1,
1230,7361,7402,1,
7064,7362,7403,1,
7360,0,7404,2,
7363,4406,7405,0,
7364,4407,7406,0,
7362,0,7407,2,
4768,7365,7408,0,
7366,0,7409,2,
7367,0,7410,2,
7368,4417,7411,0,
4778,7369,7412,0,
4779,7370,7413,0,
7371,4433,7414,0,
7372,0,7415,2,
7187,7395,7416,1,
7373,0,7417,2,
7334,7374,7418,0,
7333,7377,7419,0,
7375,7376,7420,0,
7338,7378,7421,1,
7379,6132,7422,0,
7281,7380,7423,0,
7378,0,7424,2,
7381,0,7425,2,
7150,7376,7426,0,
6146,7382,7427,0,
7383,0,7428,2,
7286,7384,7429,0,
7385,0,7430,2,
7388,0,7431,2,
7386,0,7432,2,
7293,7389,7433,0,
7393,0,7434,2,
7373,7350,7435,1,
6035,7382,7436,1,
7302,7394,7437,0,
7395,0,7438,2,
7396,7355,7439,0,
1238,7397,7440,1,
7399,0,7441,2,
7400,0,7442,2,
7398,0,7443,2,
7401,0,7444,2,
7402,0,7445,2,
6165,7401,7446,0,
5087,7404,7447,0,
7403,0,7448,2,
1242,7406,7449,1,
1230,7405,7450,1,
7064,7407,7451,0,
1242,7408,7452,1,
1275,7411,7453,1,
1397,7412,7454,1,
1275,7413,7455,1,
1397,7414,7456,1,
7345,7429,7457,1,
7417,7216,7458,0,
6718,7418,7459,1,
7420,0,7460,2,
7419,0,7461,2,
7422,0,7462,2,
7418,0,7463,2,
7421,0,7464,2,
7338,7424,7465,0,
7426,0,7466,2,
7427,0,7467,2,
7429,0,7468,2,
7294,7432,7469,0,
7295,7431,7470,0,
7292,7430,7471,0,
7391,7433,7472,1,
7433,0,7473,2,
7297,7434,7474,0,
7436,0,7475,2,
7244,7437,7476,1,
7416,0,7477,2,
7437,0,7478,2,
7187,7438,7479,0,
7439,7359,7480,0,
7441,7313,7481,0,
6061,7444,7482,1,
7440,0,7483,2,
7446,0,7484,2,
7447,0,7485,2,
7450,0,7486,2,
7449,0,7487,2,
7451,0,7488,2,
7452,0,7489,2,
7454,0,7490,2,
7453,0,7491,2,
7455,0,7492,2,
7456,0,7493,2,
7454,5242,7494,1,
7423,0,7495,2,
7458,7339,7496,0,
7459,0,7497,2,
7460,7461,7498,0,
6718,7463,7499,0,
7425,7461,7500,0,
7423,7464,7501,0,
7465,0,7502,2,
7381,7464,7503,0,
7335,7466,7504,0,
7467,7428,7505,0,
7387,7468,7506,0,
7349,7470,7507,1,
7470,0,7508,2,
7469,0,7509,2,
7390,7471,7510,1,
7472,0,7511,2,
7471,0,7512,2,
7391,7473,7513,0,
7392,7469,7514,1,
7299,7474,7515,1,
7474,0,7516,2,
7476,0,7517,2,
7244,7478,7518,0,
7479,0,7519,2,
7480,0,7520,2,
7485,7484,7521,0,
7490,5242,7522,0,
5738,7493,7523,0,
5632,7493,7524,1,
7494,0,7525,2,
7498,0,7526,2,
6322,7497,7527,1,
7496,0,7528,2,
6404,7497,7529,0,
7500,7460,7530,0,
7501,0,7531,2,
7499,0,7532,2,
7503,7333,7533,0,
7504,0,7534,2,
7503,7457,7535,0,
7233,7505,7536,1,
7505,0,7537,2,
7506,0,7538,2,
7349,7508,7539,0,
7392,7509,7540,0,
7507,0,7541,2,
7510,0,7542,2,
7390,7512,7543,0,
7513,0,7544,2,
7514,0,7545,2,
7515,0,7546,2,
7299,7516,7547,0,
7477,7517,7548,0,
7518,7477,7549,0,
7443,7520,7550,0,
5240,7521,7551,1,
7521,0,7552,2,
7522,0,7553,2,
7523,0,7554,2,
7524,0,7555,2,
7518,0,7556,2,
7462,7528,7557,0,
7527,6144,7558,1,
7526,7381,7559,0,
7529,0,7560,2,
7527,0,7561,2,
7502,7531,7562,0,
7530,0,7563,2,
7534,7333,7564,0,
7533,7457,7565,0,
7536,0,7566,2,
7233,7537,7567,0,
7541,7511,7568,0,
7540,7542,7569,0,
7539,7511,7570,0,
7543,0,7571,2,
7545,7542,7572,0,
7547,0,7573,2,
7549,0,7574,2,
7547,7548,7575,0,
7550,0,7576,2,
5303,7552,7577,0,
7551,6166,7578,0,
7551,6166,7579,1,
5305,7553,7580,0,
5837,7554,7581,0,
7503,7526,7582,0,
7540,0,7583,2,
7539,0,7584,2,
7557,0,7585,2,
7558,0,7586,2,
7561,6144,7587,0,
7559,0,7588,2,
7532,7560,7589,0,
7562,0,7590,2,
7535,7564,7591,0,
7565,7534,7592,0,
6482,7566,7593,0,
7567,0,7594,2,
7569,0,7595,2,
7570,0,7596,2,
7572,7546,7597,0,
7558,7557,7598,1,
6414,7566,7599,1,
7575,0,7600,2,
7574,7519,7601,0,
7577,0,7602,2,
7578,0,7603,2,
7581,7494,7604,0,
5091,7580,7605,1,
7580,0,7606,2,
7581,0,7607,2,
7582,0,7608,2,
7562,7608,7609,0,
7586,7585,7610,0,
7563,7588,7611,0,
7039,7589,7612,1,
7587,0,7613,2,
7589,0,7614,2,
7457,7590,7615,0,
7591,0,7616,2,
7592,0,7617,2,
7593,0,7618,2,
7595,7571,7619,0,
7596,7544,7620,0,
7548,7597,7621,0,
7599,0,7622,2,
7601,7600,7623,0,
7602,7603,7624,0,
7604,0,7625,2,
7605,0,7626,2,
5091,7606,7627,0,
7525,7607,7628,0,
7607,7525,7629,1,
7588,7495,7630,0,
7630,7421,7631,1,
7610,0,7632,2,
6601,7611,7633,1,
7110,7614,7634,0,
7612,0,7635,2,
7611,0,7636,2,
7615,0,7637,2,
5729,7612,7638,0,
7176,7614,7639,0,
7538,7616,7640,0,
7618,7594,7641,0,
7609,7457,7642,1,
7619,0,7643,2,
5514,7624,7644,1,
7624,0,7645,2,
7626,7625,7646,0,
7627,0,7647,2,
7628,0,7648,2,
6968,7631,7649,1,
7613,7632,7650,0,
7634,0,7651,2,
7633,0,7652,2,
5622,7635,7653,1,
7637,7538,7654,0,
6601,7636,7655,0,
7638,0,7656,2,
7640,7637,7657,0,
7639,0,7658,2,
7631,0,7659,2,
7435,7641,7660,1,
7641,0,7661,2,
7642,0,7662,2,
7643,7546,7663,0,
7111,7633,7664,1,
7644,0,7665,2,
5630,7645,7666,0,
6497,7644,7667,0,
7646,0,7668,2,
5355,7647,7669,0,
7650,0,7670,2,
7172,7651,7671,0,
7652,7173,7672,0,
7654,7617,7673,0,
7655,0,7674,2,
7507,7657,7675,1,
7298,7658,7676,0,
7649,0,7677,2,
6968,7659,7678,0,
7660,0,7679,2,
7242,7662,7680,1,
7662,0,7681,2,
7653,7650,7682,1,
7435,7661,7683,0,
7663,0,7684,2,
7194,7658,7685,0,
6671,7660,7686,1,
7663,7548,7687,0,
7664,6164,7688,0,
7664,0,7689,2,
6430,7665,7690,1,
7666,0,7691,2,
7667,0,7692,2,
7668,7647,7693,0,
7669,7648,7694,0,
7653,7670,7695,0,
6664,7671,7696,1,
7672,0,7697,2,
7673,0,7698,2,
7052,7676,7699,1,
7675,0,7700,2,
7678,0,7701,2,
6739,7679,7702,0,
7242,7681,7703,0,
7683,0,7704,2,
7682,0,7705,2,
7680,0,7706,2,
7676,0,7707,2,
7684,7573,7708,0,
7685,0,7709,2,
7687,0,7710,2,
7688,0,7711,2,
6060,7689,7712,0,
7690,7323,7713,1,
7690,7323,7714,0,
7691,7692,7715,0,
7693,0,7716,2,
7674,7697,7717,0,
7695,0,7718,2,
7696,6158,7719,1,
7568,7698,7720,0,
7696,0,7721,2,
7699,0,7722,2,
7436,7700,7723,1,
7702,0,7724,2,
6421,7705,7725,1,
7475,7700,7726,0,
7052,7707,7727,0,
6491,7705,7728,0,
7703,0,7729,2,
7310,7709,7730,0,
7576,7711,7731,0,
7712,0,7732,2,
7714,0,7733,2,
5951,7715,7734,1,
7715,0,7735,2,
7716,5306,7736,0,
7541,7698,7737,0,
7656,7718,7738,0,
7719,0,7739,2,
7717,0,7740,2,
7721,6158,7741,0,
7720,0,7742,2,
6057,7722,7743,1,
7723,0,7744,2,
7724,7704,7745,0,
7726,0,7746,2,
7725,0,7747,2,
6160,7722,7748,0,
7725,7307,7749,1,
7727,0,7750,2,
7728,0,7751,2,
7730,0,7752,2,
7731,0,7753,2,
7717,7649,7754,1,
6680,7734,7755,1,
7734,0,7756,2,
5951,7735,7757,0,
7736,0,7758,2,
7737,0,7759,2,
7738,0,7760,2,
7677,7740,7761,0,
7620,7742,7762,0,
7741,0,7763,2,
7703,7744,7764,0,
7744,7706,7765,0,
7598,7745,7766,1,
7719,7738,7767,1,
7747,7307,7768,0,
7745,0,7769,2,
7748,0,7770,2,
7743,0,7771,2,
7749,0,7772,2,
7481,7752,7773,0,
7754,6494,7774,0,
7753,7732,7775,0,
7754,0,7776,2,
7453,7755,7777,1,
6750,7756,7778,0,
7757,0,7779,2,
7491,7755,7780,0,
5355,7758,7781,0,
7759,7584,7782,0,
7739,7760,7783,0,
7761,0,7784,2,
7762,0,7785,2,
7764,0,7786,2,
7766,0,7787,2,
7762,7514,7788,1,
7767,6742,7789,1,
7472,7782,7790,1,
7598,7769,7791,0,
7768,0,7792,2,
7750,7770,7793,0,
7767,6742,7794,0,
7482,7773,7795,1,
7774,0,7796,2,
7775,0,7797,2,
7776,6426,7798,0,
7773,0,7799,2,
7778,0,7800,2,
7777,0,7801,2,
7780,0,7802,2,
7781,0,7803,2,
7783,0,7804,2,
7701,7784,7805,0,
7597,7785,7806,0,
7746,7786,7807,0,
7788,0,7808,2,
7061,7787,7809,0,
7789,0,7810,2,
7790,0,7811,2,
7621,7785,7812,0,
7751,7792,7813,0,
7599,7790,7814,1,
7791,0,7815,2,
7251,7793,7816,1,
6983,7787,7817,1,
7483,7789,7818,0,
7794,0,7819,2,
7795,0,7820,2,
7797,7796,7821,0,
7482,7799,7822,0,
7798,0,7823,2,
7779,7800,7824,0,
7714,7801,7825,0,
7801,7713,7826,0,
5136,7803,7827,0,
7572,7785,7828,0,
7545,7785,7829,0,
6349,7824,7830,1,
7763,7804,7831,0,
7805,0,7832,2,
7806,0,7833,2,
7808,7686,7834,1,
7680,7805,7835,1,
7440,7810,7836,1,
7809,0,7837,2,
7622,7811,7838,0,
7812,0,7839,2,
7816,6425,7840,1,
7686,7808,7841,0,
7816,0,7842,2,
7813,0,7843,2,
7817,0,7844,2,
7818,0,7845,2,
6678,7820,7846,1,
6748,7820,7847,0,
7822,0,7848,2,
7821,0,7849,2,
7824,0,7850,2,
7825,0,7851,2,
7826,0,7852,2,
7827,0,7853,2,
7828,0,7854,2,
7829,0,7855,2,
7743,7831,7856,1,
7765,7832,7857,0,
7706,7832,7858,0,
7708,7833,7859,0,
7831,0,7860,2,
7834,7814,7861,0,
7835,6746,7862,0,
7837,7815,7863,0,
7836,7813,7864,1,
7710,7839,7865,0,
7261,7840,7866,1,
7838,0,7867,2,
7841,0,7868,2,
7838,7834,7869,0,
7842,6493,7870,0,
7317,7840,7871,0,
7836,7843,7872,0,
7819,7845,7873,0,
7846,0,7874,2,
7846,7449,7875,1,
7835,6746,7876,1,
7847,0,7877,2,
7849,7823,7878,0,
6349,7850,7879,0,
7830,6907,7880,1,
7830,0,7881,2,
7851,7802,7882,0,
5246,7853,7883,0,
7855,7583,7884,0,
7619,7854,7885,0,
7856,0,7886,2,
7857,0,7887,2,
7515,7885,7888,1,
7858,0,7889,2,
7476,7859,7890,1,
7063,7856,7891,0,
7771,7860,7892,0,
7864,0,7893,2,
7510,7884,7894,1,
7862,0,7895,2,
7749,7863,7896,1,
7865,7623,7897,0,
7863,0,7898,2,
7870,0,7899,2,
7871,0,7900,2,
7869,0,7901,2,
7872,0,7902,2,
7866,0,7903,2,
7874,7487,7904,0,
7876,7823,7905,0,
7873,0,7906,2,
7848,7877,7907,0,
7876,7878,7908,1,
7881,7072,7909,0,
7879,0,7910,2,
7492,7880,7911,0,
7882,7852,7912,0,
7455,7880,7913,1,
7883,0,7914,2,
7859,0,7915,2,
6984,7886,7916,1,
7807,7887,7917,0,
7888,0,7918,2,
7889,7729,7919,0,
7890,0,7920,2,
7888,7749,7921,0,
7892,0,7922,2,
7891,0,7923,2,
7894,0,7924,2,
7817,7894,7925,1,
7772,7898,7926,0,
7897,0,7927,2,
7899,7900,7928,0,
7897,7403,7929,1,
7896,7888,7930,1,
7904,0,7931,2,
7905,7849,7932,0,
7579,7907,7933,1,
7907,0,7934,2,
7909,0,7935,2,
7911,0,7936,2,
6499,7910,7937,0,
7912,0,7938,2,
7913,0,7939,2,
7908,0,7940,2,
4787,7914,7941,0,
7517,7915,7942,0,
7916,0,7943,2,
7917,0,7944,2,
7772,7918,7945,0,
7442,7916,7946,0,
7723,7919,7947,1,
7814,7917,7948,1,
7932,0,7949,2,
7921,0,7950,2,
7923,7922,7951,0,
7896,7918,7952,0,
7925,0,7953,2,
7445,7925,7954,0,
7844,7924,7955,0,
7448,7927,7956,0,
7926,0,7957,2,
7928,0,7958,2,
7929,0,7959,2,
7930,0,7960,2,
7933,6992,7961,1,
7933,0,7962,2,
7579,7934,7963,0,
7328,7937,7964,1,
7935,7936,7965,0,
7937,0,7966,2,
7939,7938,7967,0,
7941,0,7968,2,
7942,0,7969,2,
7964,7965,7970,1,
7556,7969,7971,0,
7400,7943,7972,1,
7945,0,7973,2,
7814,7944,7974,0,
7861,7944,7975,0,
7948,7314,7976,1,
7947,0,7977,2,
7946,0,7978,2,
7065,7947,7979,0,
7893,7950,7980,0,
7866,7951,7981,1,
7895,7949,7982,0,
7948,0,7983,2,
7951,0,7984,2,
7955,0,7985,2,
7952,0,7986,2,
7954,0,7987,2,
7402,7953,7988,1,
7956,0,7989,2,
7958,7875,7990,0,
7958,7875,7991,1,
7452,7961,7992,1,
7962,7070,7993,0,
7489,7961,7994,0,
7963,0,7995,2,
7964,0,7996,2,
7965,0,7997,2,
7328,7966,7998,0,
4788,7968,7999,0,
7972,7920,8000,0,
7863,7973,8001,0,
7974,0,8002,2,
7975,0,8003,2,
6986,7977,8004,1,
7976,0,8005,2,
7971,7416,8006,1,
7982,0,8007,2,
7983,7314,8008,0,
7972,7920,8009,1,
7903,7984,8010,0,
7986,7957,8011,0,
7985,7987,8012,0,
7488,7989,8013,0,
7990,0,8014,2,
7979,0,8015,2,
7992,0,8016,2,
7993,0,8017,2,
7994,0,8018,2,
7996,7997,8019,0,
7998,0,8020,2,
7999,0,8021,2,
7970,7629,8022,0,
7930,8012,8023,1,
8000,0,8024,2,
8001,0,8025,2,
8002,7867,8026,0,
8003,7868,8027,0,
7979,8005,8028,0,
8004,8005,8029,0,
8008,0,8030,2,
8006,0,8031,2,
8009,7873,8032,1,
8010,0,8033,2,
7864,8011,8034,1,
8012,0,8035,2,
8013,0,8036,2,
8014,7931,8037,0,
8009,7906,8038,0,
8013,7321,8039,1,
7862,8004,8040,0,
7932,8004,8041,0,
8004,7982,8042,1,
7995,8017,8043,0,
8019,0,8044,2,
7415,8020,8045,0,
4790,8021,8046,0,
8024,7978,8047,0,
7980,8025,8048,0,
7834,8026,8049,1,
8029,8007,8050,0,
8028,0,8051,2,
8027,7901,8052,0,
8032,0,8053,2,
8034,7890,8054,0,
7960,8035,8055,0,
7321,8036,8056,0,
8038,0,8057,2,
8039,0,8058,2,
7992,8037,8059,1,
8040,0,8060,2,
8034,7920,8061,1,
8041,0,8062,2,
8042,0,8063,2,
8037,0,8064,2,
7713,8043,8065,1,
8043,0,8066,2,
8043,7882,8067,0,
8045,0,8068,2,
7524,8045,8069,1,
8042,7940,8070,1,
8046,5051,8071,0,
7981,8047,8072,1,
8047,0,8073,2,
8049,0,8074,2,
8048,0,8075,2,
8052,0,8076,2,
7988,8052,8077,1,
8030,8051,8078,0,
8050,0,8079,2,
8055,0,8080,2,
8056,0,8081,2,
8061,0,8082,2,
8060,8015,8083,0,
8059,8058,8084,1,
8058,0,8085,2,
8016,8064,8086,0,
8063,7908,8087,0,
8054,0,8088,2,
8065,0,8089,2,
7713,8066,8090,0,
8067,0,8091,2,
7826,8066,8092,0,
7555,8068,8093,0,
8070,0,8094,2,
8069,7970,8095,0,
8072,0,8096,2,
7981,8073,8097,0,
7450,8074,8098,1,
8075,7902,8099,0,
8078,8079,8100,0,
8077,0,8101,2,
7988,8076,8102,0,
7486,8074,8103,0,
8078,0,8104,2,
7409,8081,8105,0,
8083,8062,8106,0,
8084,0,8107,2,
8082,8023,8108,0,
8055,8082,8109,0,
8059,8085,8110,0,
8086,0,8111,2,
8090,0,8112,2,
8091,7970,8113,0,
8092,0,8114,2,
8093,0,8115,2,
8031,8096,8116,1,
8097,0,8117,2,
8031,8096,8118,0,
8098,0,8119,2,
8032,8099,8120,1,
8103,8101,8121,0,
8099,0,8122,2,
8100,0,8123,2,
8102,8023,8124,0,
8102,0,8125,2,
7410,8105,8126,1,
8103,0,8127,2,
7976,8106,8128,1,
7991,8107,8129,0,
8098,8100,8130,1,
8109,0,8131,2,
8018,8111,8132,0,
8110,0,8133,2,
7733,8112,8134,0,
8113,7967,8135,0,
7882,8114,8136,0,
7694,8115,8137,0,
7959,8116,8138,0,
8120,8006,8139,1,
8118,0,8140,2,
8033,8117,8141,0,
8119,8101,8142,0,
8121,8023,8143,0,
8124,0,8144,2,
8006,8120,8145,0,
8053,8122,8146,0,
8121,0,8147,2,
8050,8119,8148,0,
7929,8116,8149,1,
8119,8104,8150,0,
8126,6429,8151,1,
8087,8128,8152,0,
8131,8088,8153,0,
8065,8132,8154,1,
8132,0,8155,2,
7777,8134,8156,1,
8135,0,8157,2,
7913,8136,8158,1,
8128,8087,8159,1,
8136,0,8160,2,
8152,8130,8161,0,
8138,0,8162,2,
7991,8141,8163,1,
8142,8123,8164,0,
8054,8139,8165,0,
8146,0,8166,2,
8145,0,8167,2,
8141,0,8168,2,
8144,8080,8169,0,
8143,0,8170,2,
8147,8125,8171,0,
8149,0,8172,2,
8148,0,8173,2,
8139,8082,8174,0,
8150,0,8175,2,
8151,0,8176,2,
8089,8155,8177,0,
8157,8044,8178,0,
8156,0,8179,2,
8158,7970,8180,0,
8152,8130,8181,1,
8159,0,8182,2,
7939,8160,8183,0,
8162,8140,8184,0,
8165,0,8185,2,
8163,0,8186,2,
8164,8023,8187,0,
8169,8170,8188,0,
8164,0,8189,2,
7991,8168,8190,0,
8057,8166,8191,0,
8173,8127,8192,0,
8129,8168,8193,0,
8154,8176,8194,1,
8154,8176,8195,0,
8177,0,8196,2,
8178,0,8197,2,
8180,8069,8198,0,
8181,0,8199,2,
8094,8182,8200,0,
8070,8182,8201,1,
8183,0,8202,2,
8171,8189,8203,0,
8184,0,8204,2,
8167,8185,8205,0,
8187,0,8206,2,
8191,0,8207,2,
8190,0,8208,2,
8149,8191,8209,1,
8186,8107,8210,0,
8192,8175,8211,0,
8193,0,8212,2,
8163,8184,8213,1,
8195,0,8214,2,
8069,8197,8215,0,
8200,0,8216,2,
8200,8199,8217,0,
8201,8182,8218,1,
8218,1178,8219,0,
8201,8219,8220,1,
8077,8211,8221,1,
8186,8204,8222,0,
8188,8206,8223,0,
8205,0,8224,2,
8203,0,8225,2,
8172,8207,8226,0,
8174,8209,8227,0,
8203,8023,8228,1,
8210,8204,8229,0,
8133,8212,8230,0,
8058,8213,8231,0,
8213,8058,8232,1,
8214,8196,8233,0,
8215,0,8234,2,
8216,1198,8235,0,
8220,8094,8236,0,
8161,8221,8237,0,
8222,0,8238,2,
8224,8209,8239,0,
8223,0,8240,2,
8108,8225,8241,0,
8226,0,8242,2,
8229,0,8243,2,
8228,0,8244,2,
8061,8223,8245,1,
8231,0,8246,2,
8156,8233,8247,1,
8233,0,8248,2,
8234,8115,8249,0,
8221,8161,8250,1,
8137,8234,8251,0,
8221,0,8252,2,
8199,8235,8253,1,
8236,0,8254,2,
8208,8238,8255,0,
8239,0,8256,2,
8227,8240,8257,0,
8241,0,8258,2,
8174,8240,8259,0,
8237,8244,8260,0,
8230,8243,8261,0,
8247,0,8262,2,
8156,8248,8263,0,
8247,8179,8264,0,
8249,0,8265,2,
8250,0,8266,2,
8249,7648,8267,0,
8228,8237,8268,1,
8250,8217,8269,1,
8252,8161,8270,1,
8245,0,8271,2,
8236,8253,8272,0,
8251,5246,8273,0,
8084,8255,8274,1,
8242,8256,8275,0,
8257,0,8276,2,
8259,0,8277,2,
8153,8258,8278,0,
8261,0,8279,2,
8194,8261,8280,1,
8260,8245,8281,0,
8263,0,8282,2,
8264,0,8283,2,
8262,8194,8284,0,
7629,8265,8285,0,
8245,8260,8286,1,
8267,7647,8287,0,
8217,8266,8288,0,
8269,8270,8289,1,
8289,1178,8290,0,
8269,8290,8291,1,
8271,8260,8292,1,
8273,4788,8293,0,
8272,0,8294,2,
8274,8176,8295,1,
8275,8276,8296,0,
8139,8278,8297,1,
8205,8277,8298,0,
8274,8151,8299,0,
8280,0,8300,2,
8194,8279,8301,0,
8284,8279,8302,0,
8198,8283,8303,0,
8158,8283,8304,0,
8285,0,8305,2,
8286,0,8306,2,
8288,8268,8307,0,
8272,8291,8308,0,
8288,0,8309,2,
8232,8296,8310,1,
8295,0,8311,2,
8296,0,8312,2,
8299,0,8313,2,
8297,0,8314,2,
8209,8298,8315,1,
8301,0,8316,2,
8262,8300,8317,0,
8302,0,8318,2,
8303,7629,8319,0,
8304,7970,8320,0,
8305,7648,8321,0,
8307,8306,8322,0,
8297,8281,8323,1,
8286,8307,8324,1,
8308,8268,8325,0,
8308,0,8326,2,
8309,1198,8327,0,
8231,8311,8328,0,
8232,8311,8329,0,
8232,8312,8330,0,
8315,0,8331,2,
8281,8314,8332,0,
8310,0,8333,2,
8282,8316,8334,0,
8318,8282,8335,0,
8322,0,8336,2,
8324,8292,8337,1,
8337,1178,8338,0,
8324,8338,8339,1,
8322,8323,8340,0,
8325,0,8341,2,
8268,8327,8342,1,
8332,8331,8343,0,
8328,0,8344,2,
8329,8312,8345,0,
8330,0,8346,2,
8329,8300,8347,0,
8315,8332,8348,1,
8336,1198,8349,0,
8332,0,8350,2,
8325,8339,8351,0,
8345,0,8352,2,
8313,8344,8353,0,
8346,8246,8354,0,
8345,8300,8355,0,
8343,8333,8356,0,
8347,8312,8357,0,
8345,8317,8358,0,
8348,0,8359,2,
8340,8348,8360,0,
8323,8349,8361,1,
8350,8331,8362,1,
8310,8343,8363,1,
8351,0,8364,2,
8353,8352,8365,0,
8295,8354,8366,1,
8355,0,8367,2,
8356,8262,8368,0,
8353,0,8369,2,
8357,0,8370,2,
8358,0,8371,2,
8359,8340,8372,1,
8360,0,8373,2,
8360,8363,8374,0,
8351,8361,8375,0,
8280,8365,8376,1,
8356,8366,8377,0,
8369,8300,8378,0,
8335,8371,8379,0,
8368,8158,8380,0,
8366,8356,8381,1,
8372,8362,8382,1,
8382,1178,8383,0,
8372,8383,8384,1,
8373,1198,8385,0,
8366,0,8386,2,
8375,0,8387,2,
8356,8376,8388,0,
8377,0,8389,2,
8376,0,8390,2,
8376,8366,8391,0,
8378,0,8392,2,
8378,8262,8393,0,
8381,0,8394,2,
8375,8384,8395,0,
8363,8385,8396,1,
8386,8356,8397,1,
8381,8374,8398,1,
8392,8316,8399,0,
8388,8366,8400,0,
8390,8389,8401,0,
8391,8368,8402,0,
8334,8392,8403,0,
8393,0,8404,2,
8380,8391,8405,0,
8374,8394,8406,0,
8395,8396,8407,0,
8398,8397,8408,1,
8408,1178,8409,0,
8398,8409,8410,1,
8395,0,8411,2,
8399,8367,8412,0,
8400,0,8413,2,
8401,0,8414,2,
8402,0,8415,2,
8403,8370,8416,0,
8379,8404,8417,0,
8095,8405,8418,0,
8405,0,8419,2,
8405,7970,8420,0,
8407,8410,8421,0,
8407,0,8422,2,
8247,8412,8423,1,
8414,8413,8424,0,
8416,0,8425,2,
8158,8417,8426,1,
8418,0,8427,2,
8420,0,8428,2,
8421,0,8429,2,
8423,0,8430,2,
8424,0,8431,2,
8303,8425,8432,0,
8319,8425,8433,0,
8320,8425,8434,0,
8426,8415,8435,0,
8304,8425,8436,0,
8426,0,8437,2,
8424,8406,8438,1,
8413,8430,8439,0,
8406,8431,8440,0,
8432,0,8441,2,
8433,0,8442,2,
8434,0,8443,2,
8435,0,8444,2,
8436,0,8445,2,
8402,8437,8446,1,
8430,8400,8447,1,
8438,8431,8448,1,
8448,1178,8449,0,
8438,8449,8450,1,
8439,0,8451,2,
8251,8441,8452,0,
8287,8441,8453,0,
8321,8442,8454,0,
8178,8443,8455,0,
8249,8441,8456,0,
8273,8441,8457,0,
8293,8441,8458,0,
8444,8419,8459,0,
8202,8445,8460,0,
8421,8450,8461,0,
7970,8460,8462,1,
7605,8454,8463,1,
8451,8415,8464,0,
8452,0,8465,2,
8453,0,8466,2,
7629,8456,8467,1,
8069,8455,8468,1,
8457,0,8469,2,
8458,0,8470,2,
8459,0,8471,2,
8461,0,8472,2,
8464,0,8473,2,
7827,8465,8474,0,
8466,7716,8475,0,
8462,7970,8476,1,
8476,8405,8477,0,
8462,8477,8478,1,
8463,5306,8479,0,
7736,8466,8480,0,
8467,8427,8481,0,
8468,0,8482,2,
7941,8469,8483,0,
8046,8470,8484,0,
8071,8470,8485,0,
8467,0,8486,2,
8464,8440,8487,1,
8462,8405,8488,1,
8440,8473,8489,0,
8482,8022,8490,0,
8474,0,8491,2,
5244,8475,8492,1,
8480,0,8493,2,
8479,5136,8494,0,
8478,0,8495,2,
8481,0,8496,2,
8428,8482,8497,1,
8483,0,8498,2,
8484,0,8499,2,
8482,7629,8500,0,
8485,0,8501,2,
8420,8482,8502,0,
8487,8447,8503,1,
8503,1178,8504,0,
8487,8504,8505,1,
8482,8420,8506,1,
8490,8405,8507,0,
5246,8491,8508,0,
8492,0,8509,2,
8495,0,8510,2,
5355,8493,8511,0,
8497,8471,8512,0,
8489,8471,8513,0,
4788,8498,8514,0,
4912,8499,8515,0,
8500,8420,8516,0,
8471,8489,8517,1,
8486,8502,8518,1,
5190,8501,8519,0,
8502,8486,8520,0,
8461,8505,8521,0,
8507,7626,8522,0,
4787,8508,8523,1,
8494,8507,8524,0,
8509,5136,8525,0,
8479,8507,8526,0,
8507,0,8527,2,
8463,8507,8528,1,
8507,8463,8529,0,
8489,8510,8530,0,
5136,8511,8531,1,
4790,8514,8532,1,
8463,8509,8533,0,
8513,8510,8534,0,
8517,8446,8535,1,
8535,1178,8536,0,
8517,8536,8537,1,
5051,8515,8538,1,
8463,8520,8539,1,
8519,0,8540,2,
8495,8513,8541,1,
8520,8463,8542,0,
4992,8519,8543,1,
8521,0,8544,2,
8522,0,8545,2,
8523,0,8546,2,
8526,0,8547,2,
8496,8527,8548,0,
8524,0,8549,2,
8528,0,8550,2,
8531,0,8551,2,
8530,8512,8552,0,
8532,0,8553,2,
8533,8516,8554,0,
8497,8534,8555,1,
8538,0,8556,2,
8537,0,8557,2,
4992,8540,8558,0,
8492,8542,8559,1,
8541,8488,8560,1,
8560,1178,8561,0,
8541,8561,8562,1,
8543,0,8563,2,
8543,8538,8564,0,
8527,8523,8565,0,
8545,8492,8566,0,
8525,8546,8567,0,
8548,0,8568,2,
8549,8523,8569,0,
8547,8551,8570,1,
8552,0,8571,2,
8546,8551,8572,0,
8554,8551,8573,0,
8555,8506,8574,1,
8574,1178,8575,0,
8555,8575,8576,1,
8521,8557,8577,0,
8554,8556,8578,0,
8551,8554,8579,1,
8558,0,8580,2,
8566,0,8581,2,
8567,8529,8582,0,
8550,8568,8583,0,
8569,0,8584,2,
8571,8548,8585,1,
8552,8568,8586,0,
8576,0,8587,2,
8572,8553,8588,0,
8546,8573,8589,1,
8577,8562,8590,0,
5097,8580,8591,0,
8577,0,8592,2,
8573,8546,8593,0,
8570,1433,8594,0,
8588,8578,8595,0,
8581,8547,8596,0,
8582,0,8597,2,
8583,8552,8598,0,
8550,8586,8599,1,
8585,8518,8600,1,
8600,1178,8601,0,
8585,8601,8602,1,
8587,8590,8603,0,
8590,0,8604,2,
4792,8591,8605,1,
8553,8593,8606,1,
8593,8553,8607,0,
8564,8594,8608,0,
8582,8553,8609,0,
8596,0,8610,2,
8584,8597,8611,0,
8597,8553,8612,1,
8596,8598,8613,1,
8599,8539,8614,1,
8614,1178,8615,0,
8599,8615,8616,1,
8602,0,8617,2,
8609,8538,8618,1,
8609,8556,8619,0,
8595,8563,8620,1,
8603,0,8621,2,
8605,0,8622,2,
8556,8607,8623,1,
8595,8605,8624,0,
8595,8563,8625,0,
8595,0,8626,2,
8570,8610,8627,0,
8598,8610,8628,0,
8611,0,8629,2,
8587,8617,8630,0,
8613,8559,8631,1,
8631,1178,8632,0,
8613,8632,8633,1,
8616,0,8634,2,
8619,8543,8635,1,
8619,8563,8636,0,
8625,8626,8637,1,
8637,8605,8638,0,
8625,8638,8639,1,
8565,8622,8640,0,
8608,8610,8641,0,
8617,8590,8642,0,
8598,8612,8643,0,
8624,0,8644,2,
8627,8598,8645,0,
8612,8629,8646,0,
8570,8628,8647,1,
8634,8633,8648,0,
8630,8590,8649,0,
8636,0,8650,2,
8642,8587,8651,0,
8640,8641,8652,0,
8629,8645,8653,1,
8647,8579,8654,1,
8654,1178,8655,0,
8647,8655,8656,1,
8645,8646,8657,0,
8649,8634,8658,0,
8648,8649,8659,0,
8649,0,8660,2,
8651,8648,8661,0,
8643,8652,8662,0,
8645,8629,8663,0,
8653,8589,8664,1,
8664,1178,8665,0,
8653,8665,8666,1,
8656,0,8667,2,
8657,8618,8668,0,
8658,0,8669,2,
8661,0,8670,2,
8612,8663,8671,1,
8662,0,8672,2,
8618,8657,8673,1,
8635,8668,8674,1,
8666,0,8675,2,
8668,8635,8676,0,
8673,8623,8677,1,
8677,1178,8678,0,
8673,8678,8679,1,
8667,8661,8680,0,
8671,8606,8681,1,
8681,1178,8682,0,
8671,8682,8683,1,
8672,1198,8684,0,
8675,8667,8685,0,
8674,8620,8686,1,
8686,1178,8687,0,
8674,8687,8688,1,
8676,8650,8689,0,
8683,0,8690,2,
8680,0,8691,2,
8684,0,8692,2,
8679,0,8693,2,
8688,0,8694,2,
8685,8659,8695,0,
8622,8689,8696,1,
8693,8690,8697,0,
8644,8692,8698,0,
8698,0,8699,2,
8695,8694,8700,0,
8696,8639,8701,1,
8701,1178,8702,0,
8696,8702,8703,1,
8695,0,8704,2,
8695,8690,8705,0,
8697,8695,8706,0,
8706,0,8707,2,
8699,8544,8708,0,
8699,8592,8709,0,
8699,8254,8710,0,
8699,8294,8711,0,
8699,8326,8712,0,
8699,8341,8713,0,
8699,8621,8714,0,
8699,8604,8715,0,
8699,8669,8716,0,
8699,8387,8717,0,
8700,8697,8718,0,
8699,8364,8719,0,
8703,0,8720,2,
8699,8429,8721,0,
8699,8660,8722,0,
8699,8691,8723,0,
8699,8670,8724,0,
8705,0,8725,2,
8699,8070,8726,0,
8699,8704,8727,0,
8699,31,8728,1,
8699,8472,8729,0,
8699,8422,8730,0,
8699,8411,8731,0,
8576,8715,8732,1,
8537,8708,8733,1,
8656,8724,8734,1,
8339,8713,8735,1,
8291,8711,8736,1,
8450,8721,8737,1,
8602,8714,8738,1,
8384,8717,8739,1,
8505,8729,8740,1,
8633,8716,8741,1,
8396,8731,8742,1,
8253,8710,8743,1,
8562,8709,8744,1,
8361,8719,8745,1,
8342,8712,8746,1,
8718,0,8747,2,
8707,8699,8748,0,
1433,8720,8749,0,
8616,8722,8750,1,
8666,8723,8751,1,
8683,8727,8752,1,
8699,8725,8753,0,
8220,8726,8754,1,
660,8728,8755,0,
8410,8730,8756,1,
8746,0,8757,2,
8745,0,8758,2,
8737,8740,8759,0,
8756,8742,8760,0,
8754,0,8761,2,
8743,0,8762,2,
8733,0,8763,2,
8742,0,8764,2,
8756,0,8765,2,
8751,0,8766,2,
8739,0,8767,2,
8694,8748,8768,1,
8736,8743,8769,0,
8738,0,8770,2,
8735,8746,8771,0,
8750,0,8772,2,
8732,0,8773,2,
8752,0,8774,2,
8699,8747,8775,0,
8745,8739,8776,0,
8736,0,8777,2,
8737,0,8778,2,
8734,0,8779,2,
8745,8735,8780,0,
8739,8746,8781,0,
8735,0,8782,2,
8744,8733,8783,0,
8740,8744,8784,0,
8741,8750,8785,0,
8740,0,8786,2,
8744,0,8787,2,
8741,0,8788,2,
8742,8737,8789,0,
8679,8753,8790,1,
8736,8735,8791,0,
8759,8760,8792,0,
8759,0,8793,2,
8744,8763,8794,0,
8769,0,8795,2,
8766,8779,8796,0,
8741,8772,8797,0,
8773,8770,8798,0,
8790,0,8799,2,
8775,8749,8800,1,
8769,8754,8801,0,
8781,8780,8802,0,
8770,8763,8803,0,
8773,8744,8804,0,
8765,8737,8805,0,
8783,0,8806,2,
8785,0,8807,2,
8774,8751,8808,0,
8774,8779,8809,0,
8774,8768,8810,0,
8773,8763,8811,0,
8735,8757,8812,0,
8761,8743,8813,0,
8811,8789,8814,0,
8794,8793,8815,0,
8771,8795,8816,0,
8796,0,8817,2,
8797,8774,8818,0,
8760,8794,8819,0,
8768,8800,8820,0,
8812,0,8821,2,
8797,8766,8822,0,
8769,8802,8823,0,
8803,8804,8824,0,
8768,8799,8825,0,
8774,8800,8826,0,
8801,8802,8827,0,
8805,0,8828,2,
8806,8773,8829,0,
8768,8807,8830,0,
8808,0,8831,2,
8802,0,8832,2,
223,8801,8833,0,
8810,0,8834,2,
8813,0,8835,2,
8826,8825,8836,0,
8830,8809,8837,0,
8815,0,8838,2,
8817,8774,8839,0,
8816,0,8840,2,
8818,8799,8841,0,
8823,8236,8842,0,
8792,8824,8843,0,
8822,8779,8844,0,
8784,8828,8845,0,
8829,0,8846,2,
8833,8802,8847,0,
8831,8799,8848,0,
8792,8832,8849,0,
8791,8835,8850,0,
8821,8745,8851,0,
8814,8837,8852,0,
8844,8824,8853,0,
8792,8836,8854,0,
8798,8838,8855,0,
8776,8840,8856,0,
8839,8799,8857,0,
8819,8841,8858,0,
8837,8788,8859,0,
8842,0,8860,2,
8844,8836,8861,0,
8846,8770,8862,0,
8845,8770,8863,0,
8849,0,8864,2,
8850,0,8865,2,
8848,0,8866,2,
8855,0,8867,2,
8857,0,8868,2,
8856,0,8869,2,
8768,8866,8870,0,
8859,0,8871,2,
8843,8860,8872,0,
8854,8853,8873,0,
8863,0,8874,2,
8862,0,8875,2,
8824,8864,8876,0,
8851,8865,8877,0,
8877,0,8878,2,
8841,8867,8879,0,
8858,8869,8880,0,
8820,8868,8881,0,
8870,0,8882,2,
8872,0,8883,2,
8873,0,8884,2,
8827,8873,8885,0,
8875,8874,8886,0,
223,8873,8887,0,
8873,8847,8888,0,
8876,0,8889,2,
8879,0,8890,2,
8880,0,8891,2,
8861,8883,8892,0,
8885,0,8893,2,
223,8885,8894,0,
8886,8837,8895,0,
8871,8882,8896,0,
8844,8889,8897,0,
8887,0,8898,2,
619,8885,8899,0,
8878,8739,8900,0,
8900,0,8901,2,
8894,0,8902,2,
8881,8890,8903,0,
8895,0,8904,2,
8892,0,8905,2,
8800,8896,8906,0,
8897,0,8907,2,
8903,8891,8908,0,
8836,8907,8909,0,
8905,8884,8910,0,
8905,8893,8911,0,
8852,8901,8912,0,
8908,8761,8913,0,
8908,8762,8914,0,
8908,0,8915,2,
8908,8070,8916,0,
8909,0,8917,2,
8741,8770,8918,1,
8918,8908,8919,0,
8741,8919,8920,1,
8732,8733,8921,1,
8921,8908,8922,0,
8732,8922,8923,1,
8908,8765,8924,0,
8767,8908,8925,0,
8909,8905,8926,0,
8770,8744,8927,1,
8927,8908,8928,0,
8770,8928,8929,1,
8772,8773,8930,1,
8930,8908,8931,0,
8772,8931,8932,1,
8908,8757,8933,0,
8908,8764,8934,0,
8912,0,8935,2,
8892,8909,8936,0,
8777,8908,8937,0,
8908,8734,8938,0,
8908,8751,8939,0,
8908,8778,8940,0,
8911,0,8941,2,
8908,8787,8942,0,
8758,8908,8943,0,
8739,8735,8944,1,
8944,8908,8945,0,
8739,8945,8946,1,
8763,8737,8947,1,
8947,8908,8948,0,
8763,8948,8949,1,
8740,8756,8950,1,
8950,8908,8951,0,
8740,8951,8952,1,
8734,8750,8953,1,
8953,8908,8954,0,
8734,8954,8955,1,
8742,8745,8956,1,
8956,8908,8957,0,
8742,8957,8958,1,
223,8909,8959,0,
223,8908,8960,0,
8765,8767,8961,1,
8961,8908,8962,0,
8765,8962,8963,1,
8778,8764,8964,1,
8964,8908,8965,0,
8778,8965,8966,1,
8787,8786,8967,1,
8967,8908,8968,0,
8787,8968,8969,1,
8774,8779,8970,1,
8970,8908,8971,0,
8774,8971,8972,1,
8908,8786,8973,0,
8908,8782,8974,0,
8766,8741,8975,1,
8975,8908,8976,0,
8766,8976,8977,1,
8915,8762,8978,0,
8917,8905,8979,0,
8925,0,8980,2,
8892,8917,8981,0,
8778,8915,8982,0,
8777,8915,8983,0,
8939,0,8984,2,
8915,8782,8985,0,
8757,8915,8986,0,
8758,8915,8987,0,
8915,8761,8988,0,
8915,8787,8989,0,
8790,8915,8990,0,
8915,8786,8991,0,
8738,8915,8992,0,
8765,8915,8993,0,
223,8941,8994,0,
8920,0,8995,2,
8926,0,8996,2,
8915,8764,8997,0,
8960,0,8998,2,
8959,0,8999,2,
8752,8915,9000,0,
8767,8915,9001,0,
8904,8935,9002,0,
8916,0,9003,2,
8873,8926,9004,0,
8733,8915,9005,0,
8906,9002,9006,0,
8979,8884,9007,0,
8979,8873,9008,0,
8982,0,9009,2,
8983,0,9010,2,
8991,0,9011,2,
8888,8996,9012,0,
8978,0,9013,2,
8994,0,9014,2,
8799,8984,9015,0,
8997,0,9016,2,
8983,9006,9017,0,
8914,8913,9018,1,
9018,9006,9019,0,
8914,9019,9020,1,
8972,8977,9021,1,
9021,9006,9022,0,
8972,9022,9023,1,
8980,9016,9024,1,
9024,9006,9025,0,
8980,9025,9026,1,
9006,0,9027,2,
9003,9013,9028,0,
8955,8995,9029,1,
9029,9006,9030,0,
8955,9030,9031,1,
8966,8963,9032,1,
9032,9006,9033,0,
8966,9033,9034,1,
8923,8969,9035,1,
9035,9006,9036,0,
8923,9036,9037,1,
8924,8934,9038,1,
9038,9006,9039,0,
8924,9039,9040,1,
9011,9009,9041,1,
9041,9006,9042,0,
9011,9042,9043,1,
8914,9006,9044,0,
8937,9006,9045,0,
8985,9006,9046,0,
8986,9006,9047,0,
8988,9006,9048,0,
8974,8933,9049,1,
9049,9006,9050,0,
8974,9050,9051,1,
9001,8987,9052,1,
9052,9006,9053,0,
9001,9053,9054,1,
8761,8070,9055,1,
9055,9006,9056,0,
8761,9056,9057,1,
8938,9006,9058,0,
8940,9006,9059,0,
8734,9006,9060,0,
8788,8750,9061,1,
9061,9006,9062,0,
8788,9062,9063,1,
223,9006,9064,0,
9015,9006,9065,0,
8993,8943,9066,1,
9066,9006,9067,0,
8993,9067,9068,1,
8989,9005,9069,1,
9069,9006,9070,0,
8989,9070,9071,1,
8990,9000,9072,1,
9072,9006,9073,0,
8990,9073,9074,1,
8920,8932,9075,1,
9075,9006,9076,0,
8920,9076,9077,1,
8932,8929,9078,1,
9078,9006,9079,0,
8932,9079,9080,1,
8942,8923,9081,1,
9081,9006,9082,0,
8942,9082,9083,1,
8958,8946,9084,1,
9084,9006,9085,0,
8958,9085,9086,1,
8949,8952,9087,1,
9087,9006,9088,0,
8949,9088,9089,1,
9017,0,9090,2,
9020,0,9091,2,
9089,0,9092,2,
9080,0,9093,2,
9034,8936,9094,0,
8926,9031,9095,0,
9027,8915,9096,0,
9086,0,9097,2,
9010,9028,9098,1,
9098,9006,9099,0,
9010,9099,9100,1,
9068,0,9101,2,
9040,0,9102,2,
8916,9027,9103,0,
8937,9027,9104,0,
8978,9027,9105,0,
8987,9027,9106,0,
8985,9027,9107,0,
8933,9027,9108,0,
9045,0,9109,2,
9046,0,9110,2,
9047,0,9111,2,
9044,0,9112,2,
9054,0,9113,2,
9048,0,9114,2,
9051,0,9115,2,
9057,8915,9116,0,
8926,9037,9117,0,
8981,9034,9118,0,
9007,9034,9119,0,
8926,9034,9120,0,
9007,9031,9121,0,
9007,9037,9122,0,
8973,9027,9123,0,
8939,9027,9124,0,
8913,9027,9125,0,
9037,8981,9126,0,
9059,0,9127,2,
9058,0,9128,2,
8992,9027,9129,0,
9060,9063,9130,1,
9130,8908,9131,0,
9060,9131,9132,1,
9064,0,9133,2,
9083,0,9134,2,
9071,0,9135,2,
9077,0,9136,2,
9074,0,9137,2,
9065,0,9138,2,
8757,9096,9139,0,
9091,9090,9140,0,
9095,0,9141,2,
9094,0,9142,2,
9026,9101,9143,0,
9125,0,9144,2,
9096,8751,9145,0,
9132,0,9146,2,
9106,0,9147,2,
9108,0,9148,2,
9103,0,9149,2,
9105,0,9150,2,
9107,0,9151,2,
9104,0,9152,2,
9115,9113,9153,0,
9007,9136,9154,0,
9008,9116,9155,0,
9096,8070,9156,0,
9118,0,9157,2,
9007,9097,9158,0,
9117,0,9159,2,
8926,9116,9160,0,
8981,9116,9161,0,
8936,9116,9162,0,
9122,0,9163,2,
9120,0,9164,2,
9119,0,9165,2,
9121,0,9166,2,
8981,9097,9167,0,
8926,9092,9168,0,
9007,9093,9169,0,
9004,9116,9170,0,
8834,9138,9171,0,
9123,0,9172,2,
9124,0,9173,2,
8926,9136,9174,0,
8926,9097,9175,0,
9093,8926,9176,0,
9007,9092,9177,0,
9007,9116,9178,0,
9090,9091,9179,0,
9126,0,9180,2,
9102,9043,9181,0,
9097,8936,9182,0,
9129,0,9183,2,
9092,8981,9184,0,
9139,0,9185,2,
9184,0,9186,2,
9143,0,9187,2,
9134,9183,9188,0,
9170,0,9189,2,
9174,0,9190,2,
9145,0,9191,2,
9150,9149,9192,0,
9147,9110,9193,0,
9148,9109,9194,0,
9152,9112,9195,0,
9151,9111,9196,0,
9153,0,9197,2,
9155,0,9198,2,
9154,0,9199,2,
8981,9156,9200,0,
9162,0,9201,2,
9160,0,9202,2,
9158,0,9203,2,
9007,9156,9204,0,
9161,0,9205,2,
9159,9157,9206,0,
9008,9156,9207,0,
9167,0,9208,2,
9169,0,9209,2,
9168,0,9210,2,
9181,0,9211,2,
9171,0,9212,2,
9128,9173,9213,0,
9176,0,9214,2,
9182,0,9215,2,
9142,9141,9216,0,
9100,9144,9217,0,
9175,0,9218,2,
9177,0,9219,2,
9172,9127,9220,0,
9217,0,9221,2,
9140,9185,9222,0,
9179,9185,9223,0,
9188,0,9224,2,
9190,9189,9225,0,
9135,9220,9226,0,
9192,9114,9227,0,
9194,9193,9228,0,
9195,9196,9229,0,
8979,9197,9230,0,
8926,9211,9231,0,
8981,9197,9232,0,
9007,9187,9233,0,
8981,9187,9234,0,
8926,9187,9235,0,
9200,0,9236,2,
9199,9198,9237,0,
9204,0,9238,2,
9218,9219,9239,0,
9206,9166,9240,0,
9207,0,9241,2,
8936,9197,9242,0,
8926,9197,9243,0,
8936,9187,9244,0,
8981,9211,9245,0,
9007,9211,9246,0,
9146,9191,9247,0,
9210,9208,9248,0,
9214,9215,9249,0,
9180,9212,9250,0,
9137,9213,9251,0,
9023,9186,9252,0,
9008,9221,9253,0,
9226,0,9254,2,
9246,0,9255,2,
9243,0,9256,2,
9228,0,9257,2,
9229,0,9258,2,
9227,0,9259,2,
9223,0,9260,2,
8926,9221,9261,0,
8936,9221,9262,0,
9007,9224,9263,0,
9235,0,9264,2,
9231,0,9265,2,
9232,0,9266,2,
9230,0,9267,2,
8981,9221,9268,0,
9233,0,9269,2,
9234,0,9270,2,
9216,9250,9271,0,
9203,9236,9272,0,
8926,9224,9273,0,
223,9238,9274,0,
9222,0,9275,2,
9007,9221,9276,0,
9241,9209,9277,0,
9247,0,9278,2,
9242,0,9279,2,
9249,9252,9280,0,
9245,0,9281,2,
9244,0,9282,2,
9007,9278,9283,0,
9253,0,9284,2,
9282,9251,9285,0,
9008,9259,9286,0,
8936,9257,9287,0,
8936,9258,9288,0,
8979,9258,9289,0,
8981,9257,9290,0,
8936,9259,9291,0,
8981,9259,9292,0,
8981,9258,9293,0,
9007,9254,9294,0,
9275,9156,9295,1,
9295,8909,9296,0,
9275,9296,9297,1,
8926,9254,9298,0,
9262,0,9299,2,
9263,0,9300,2,
9261,0,9301,2,
8926,9258,9302,0,
8926,9257,9303,0,
8936,9260,9304,0,
8926,9260,9305,0,
9205,9269,9306,0,
9268,0,9307,2,
9277,9248,9308,0,
9256,9255,9309,0,
9266,9265,9310,0,
8981,9254,9311,0,
8873,9258,9312,0,
8979,9257,9313,0,
9274,0,9314,2,
9007,9259,9315,0,
8926,9259,9316,0,
9273,0,9317,2,
9283,0,9318,2,
9316,0,9319,2,
9313,0,9320,2,
9311,0,9321,2,
9312,0,9322,2,
9294,0,9323,2,
9291,0,9324,2,
9293,0,9325,2,
9290,0,9326,2,
9289,0,9327,2,
8892,9297,9328,0,
9292,0,9329,2,
9288,0,9330,2,
9298,0,9331,2,
9286,0,9332,2,
9287,0,9333,2,
9305,0,9334,2,
9303,0,9335,2,
9302,0,9336,2,
9267,9301,9337,0,
9304,0,9338,2,
9300,9299,9339,0,
9309,9307,9340,0,
8873,9297,9341,0,
8910,9297,9342,0,
9281,9317,9343,0,
9319,9320,9344,0,
9225,9321,9345,0,
9285,9322,9346,0,
9328,0,9347,2,
9329,9165,9348,0,
9327,9202,9349,0,
9341,0,9350,2,
9331,9270,9351,0,
9164,9326,9352,0,
9163,9324,9353,0,
9323,9201,9354,0,
9237,9330,9355,0,
9333,9332,9356,0,
9264,9325,9357,0,
9338,9308,9358,0,
9306,9336,9359,0,
9339,9310,9360,0,
9272,9334,9361,0,
9337,0,9362,2,
9284,9318,9363,0,
9279,9343,9364,0,
9340,0,9365,2,
9349,0,9366,2,
9271,9344,9367,1,
9367,8873,9368,0,
9271,9368,9369,1,
9348,9335,9370,0,
9354,9357,9371,0,
9239,9347,9372,0,
9240,9356,9373,0,
9353,9352,9374,0,
9344,0,9375,2,
9355,9351,9376,0,
9345,9346,9377,0,
9280,9350,9378,0,
9360,0,9379,2,
9358,0,9380,2,
9359,0,9381,2,
9362,8884,9382,0,
9361,0,9383,2,
9364,9363,9384,0,
9378,0,9385,2,
9369,0,9386,2,
9376,0,9387,2,
9373,0,9388,2,
9370,0,9389,2,
9384,0,9390,2,
9375,8884,9391,0,
9366,8884,9392,0,
9371,0,9393,2,
9374,0,9394,2,
9372,0,9395,2,
9377,0,9396,2,
0,0,9397,1,
9397,9314,9398,1,
9397,9178,9399,1,
9397,9315,9400,1,
9397,9276,9401,1,
9397,9342,9402,1,
9397,9392,9403,1,
9397,9391,9404,1,
9397,9382,9405,1,
9397,9383,9406,1,
9397,9381,9407,1,
9397,9389,9408,1,
9397,9365,9409,1,
9397,9395,9410,1,
9397,9393,9411,1,
9397,9394,9412,1,
9397,9379,9413,1,
9397,9380,9414,1,
9397,9387,9415,1,
9397,9388,9416,1,
9397,9390,9417,1,
9397,9385,9418,1,
9397,9396,9419,1,
9397,9386,9420,1,
9397,9133,9421,1,
9397,8998,9422,1,
9397,8999,9423,1,
9397,9014,9424,1,
9397,8898,9425,1,
9397,8902,9426,1,
9397,8902,9427,1,
9397,143,9428,1,
9397,8755,9429,1,
