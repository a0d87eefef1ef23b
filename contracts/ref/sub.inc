63,0,64,2,
30,0,65,2,
62,65,66,0,
66,0,67,2,
29,0,68,2,
61,68,69,0,
69,0,70,2,
61,0,71,2,
68,0,72,2,
71,72,73,0,
73,0,74,2,
28,0,75,2,
74,75,76,0,
60,76,77,0,
77,0,78,2,
70,78,79,0,
79,0,80,2,
62,0,81,2,
30,81,82,0,
82,0,83,2,
80,83,84,0,
84,0,85,2,
67,85,86,0,
25,0,87,2,
57,87,88,0,
88,0,89,2,
57,0,90,2,
87,0,91,2,
90,91,92,0,
92,0,93,2,
24,0,94,2,
93,94,95,0,
95,56,96,0,
96,0,97,2,
89,97,98,0,
98,0,99,2,
58,0,100,2,
26,100,101,0,
101,0,102,2,
59,0,103,2,
27,103,104,0,
104,0,105,2,
102,105,106,0,
106,0,107,2,
107,0,108,2,
99,108,109,0,
109,0,110,2,
27,0,111,2,
59,111,112,0,
112,0,113,2,
110,113,114,0,
26,0,115,2,
105,115,116,0,
58,116,117,0,
117,0,118,2,
114,118,119,0,
119,0,120,2,
82,0,121,2,
74,121,122,0,
60,0,123,2,
28,123,124,0,
124,0,125,2,
122,125,126,0,
120,126,127,0,
127,0,128,2,
107,0,129,2,
126,129,130,0,
56,0,131,2,
24,131,132,0,
132,0,133,2,
93,133,134,0,
130,134,135,0,
50,0,136,2,
18,136,137,0,
137,0,138,2,
51,0,139,2,
19,139,140,0,
140,0,141,2,
138,141,142,0,
142,0,143,2,
143,0,144,2,
135,144,145,0,
53,0,146,2,
21,146,147,0,
147,0,148,2,
52,0,149,2,
20,149,150,0,
150,0,151,2,
148,151,152,0,
54,0,153,2,
22,153,154,0,
154,0,155,2,
55,0,156,2,
23,156,157,0,
157,0,158,2,
155,158,159,0,
159,0,160,2,
160,0,161,2,
152,161,162,0,
162,0,163,2,
163,0,164,2,
145,164,165,0,
49,0,166,2,
17,166,167,0,
167,0,168,2,
15,0,169,2,
47,169,170,0,
170,0,171,2,
13,0,172,2,
45,172,173,0,
173,0,174,2,
45,0,175,2,
13,175,176,0,
176,0,177,2,
12,0,178,2,
177,178,179,0,
44,179,180,0,
180,0,181,2,
174,181,182,0,
182,0,183,2,
46,0,184,2,
14,184,185,0,
185,0,186,2,
47,0,187,2,
15,187,188,0,
188,0,189,2,
186,189,190,0,
190,0,191,2,
191,0,192,2,
183,192,193,0,
193,0,194,2,
171,194,195,0,
14,0,196,2,
189,196,197,0,
46,197,198,0,
198,0,199,2,
9,0,200,2,
41,200,201,0,
201,0,202,2,
41,0,203,2,
9,203,204,0,
204,0,205,2,
8,0,206,2,
205,206,207,0,
40,207,208,0,
208,0,209,2,
202,209,210,0,
210,0,211,2,
42,0,212,2,
10,212,213,0,
213,0,214,2,
43,0,215,2,
11,215,216,0,
216,0,217,2,
214,217,218,0,
218,0,219,2,
219,0,220,2,
211,220,221,0,
221,0,222,2,
11,0,223,2,
43,223,224,0,
224,0,225,2,
222,225,226,0,
10,0,227,2,
217,227,228,0,
42,228,229,0,
229,0,230,2,
226,230,231,0,
231,0,232,2,
44,0,233,2,
12,233,234,0,
234,0,235,2,
177,235,236,0,
191,0,237,2,
236,237,238,0,
232,238,239,0,
239,0,240,2,
199,240,241,0,
219,0,242,2,
238,242,243,0,
40,0,244,2,
8,244,245,0,
245,0,246,2,
205,246,247,0,
5,0,248,2,
37,248,249,0,
249,0,250,2,
37,0,251,2,
5,251,252,0,
252,0,253,2,
4,0,254,2,
253,254,255,0,
36,255,256,0,
256,0,257,2,
250,257,258,0,
258,0,259,2,
38,0,260,2,
6,260,261,0,
261,0,262,2,
39,0,263,2,
7,263,264,0,
264,0,265,2,
262,265,266,0,
266,0,267,2,
267,0,268,2,
259,268,269,0,
269,0,270,2,
7,0,271,2,
39,271,272,0,
272,0,273,2,
270,273,274,0,
6,0,275,2,
265,275,276,0,
276,38,277,0,
277,0,278,2,
35,0,279,2,
3,0,280,2,
280,0,281,2,
279,281,282,0,
282,0,283,2,
34,0,284,2,
2,284,285,0,
285,0,286,2,
283,286,287,0,
1,0,288,2,
33,288,289,0,
289,0,290,2,
33,0,291,2,
1,291,292,0,
292,0,293,2,
0,0,294,2,
293,294,295,0,
32,295,296,0,
296,0,297,2,
290,297,298,0,
298,0,299,2,
287,299,300,0,
300,0,301,2,
35,280,302,0,
302,0,303,2,
301,303,304,0,
2,0,305,2,
283,305,306,0,
34,306,307,0,
307,0,308,2,
304,308,309,0,
309,0,310,2,
267,0,311,2,
310,311,312,0,
36,0,313,2,
4,313,314,0,
314,0,315,2,
253,315,316,0,
312,316,317,0,
317,0,318,2,
278,318,319,0,
274,319,320,0,
320,0,321,2,
247,321,322,0,
243,322,323,0,
323,0,324,2,
241,324,325,0,
195,325,326,0,
326,0,327,2,
168,327,328,0,
48,0,329,2,
16,329,330,0,
330,0,331,2,
328,331,332,0,
165,332,333,0,
333,0,334,2,
128,334,335,0,
21,0,336,2,
53,336,337,0,
337,0,338,2,
20,0,339,2,
148,339,340,0,
52,340,341,0,
341,0,342,2,
338,342,343,0,
343,0,344,2,
160,0,345,2,
344,345,346,0,
346,0,347,2,
23,0,348,2,
55,348,349,0,
349,0,350,2,
347,350,351,0,
22,0,352,2,
158,352,353,0,
353,54,354,0,
354,0,355,2,
17,0,356,2,
49,356,357,0,
357,0,358,2,
16,0,359,2,
168,359,360,0,
48,360,361,0,
361,0,362,2,
358,362,363,0,
363,0,364,2,
143,0,365,2,
364,365,366,0,
366,0,367,2,
19,0,368,2,
51,368,369,0,
369,0,370,2,
367,370,371,0,
18,0,372,2,
141,372,373,0,
373,50,374,0,
374,0,375,2,
371,375,376,0,
376,0,377,2,
163,0,378,2,
377,378,379,0,
379,0,380,2,
355,380,381,0,
351,381,382,0,
382,0,383,2,
383,135,384,0,
384,0,385,2,
335,385,386,0,
86,386,387,0,
387,0,388,2,
56,24,389,1,
388,389,390,0,
56,390,391,1,
391,0,392,2,
24,56,393,1,
388,393,394,0,
24,394,395,1,
392,395,396,1,
348,156,397,1,
388,397,398,0,
348,398,399,1,
399,0,400,2,
156,348,401,1,
388,401,402,0,
156,402,403,1,
400,403,404,1,
400,403,405,0,
404,405,406,1,
406,396,407,1,
406,395,408,1,
396,408,409,0,
395,409,410,1,
90,87,411,1,
388,411,412,0,
90,412,413,1,
87,90,414,1,
388,414,415,0,
87,415,416,1,
416,0,417,2,
413,417,418,1,
410,418,419,1,
410,417,420,1,
418,420,421,0,
417,421,422,1,
100,115,423,1,
388,423,424,0,
100,424,425,1,
115,100,426,1,
388,426,427,0,
115,427,428,1,
428,0,429,2,
425,429,430,1,
422,430,431,1,
422,429,432,1,
430,432,433,0,
429,433,434,1,
103,111,435,1,
388,435,436,0,
103,436,437,1,
111,103,438,1,
388,438,439,0,
111,439,440,1,
440,0,441,2,
437,441,442,1,
434,442,443,1,
434,441,444,1,
442,444,445,0,
441,445,446,1,
123,75,447,1,
388,447,448,0,
123,448,449,1,
75,123,450,1,
388,450,451,0,
75,451,452,1,
452,0,453,2,
449,453,454,1,
446,454,455,1,
446,453,456,1,
454,456,457,0,
453,457,458,1,
71,68,459,1,
388,459,460,0,
71,460,461,1,
68,71,462,1,
388,462,463,0,
68,463,464,1,
464,0,465,2,
461,465,466,1,
458,466,467,1,
458,465,468,1,
466,468,469,0,
465,469,470,1,
62,0,471,2,
471,65,472,1,
388,472,473,0,
471,473,474,1,
471,65,475,0,
475,0,476,2,
474,476,477,1,
470,477,478,1,
31,64,479,1,
388,479,480,0,
31,480,481,1,
481,64,482,1,
482,0,483,2,
481,31,484,1,
484,0,485,2,
483,485,486,0,
388,0,487,2,
10,42,488,1,
487,488,489,0,
10,489,490,1,
403,400,491,1,
491,0,492,2,
11,43,493,1,
487,493,494,0,
11,494,495,1,
490,495,496,1,
492,496,497,0,
490,497,498,1,
407,0,499,2,
41,9,500,1,
388,500,501,0,
41,501,502,1,
492,0,503,2,
8,40,504,1,
487,504,505,0,
8,505,506,1,
502,506,507,1,
503,507,508,0,
502,508,509,1,
498,509,510,1,
499,510,511,0,
498,511,512,1,
15,47,513,1,
487,513,514,0,
15,514,515,1,
14,46,516,1,
487,516,517,0,
14,517,518,1,
515,518,519,1,
503,519,520,0,
515,520,521,1,
45,13,522,1,
388,522,523,0,
45,523,524,1,
12,44,525,1,
487,525,526,0,
12,526,527,1,
524,527,528,1,
503,528,529,0,
524,529,530,1,
521,530,531,1,
499,531,532,0,
521,532,533,1,
512,533,534,1,
419,534,535,0,
512,535,536,1,
431,0,537,2,
7,39,538,1,
487,538,539,0,
7,539,540,1,
6,38,541,1,
487,541,542,0,
6,542,543,1,
540,543,544,1,
503,544,545,0,
540,545,546,1,
5,37,547,1,
487,547,548,0,
5,548,549,1,
4,36,550,1,
487,550,551,0,
4,551,552,1,
549,552,553,1,
503,553,554,0,
549,554,555,1,
546,555,556,1,
499,556,557,0,
546,557,558,1,
419,0,559,2,
284,305,560,1,
388,560,561,0,
284,561,562,1,
279,280,563,1,
388,563,564,0,
279,564,565,1,
562,565,566,1,
492,566,567,0,
562,567,568,1,
291,288,569,1,
388,569,570,0,
291,570,571,1,
32,0,572,1,
388,572,573,0,
32,573,574,1,
574,0,575,2,
571,575,576,1,
503,576,577,0,
571,577,578,1,
568,578,579,1,
499,579,580,0,
568,580,581,1,
581,0,582,2,
558,582,583,1,
559,583,584,0,
558,584,585,1,
536,585,586,1,
537,586,587,0,
536,587,588,1,
19,51,589,1,
487,589,590,0,
19,590,591,1,
18,50,592,1,
487,592,593,0,
18,593,594,1,
591,594,595,1,
503,595,596,0,
591,596,597,1,
49,17,598,1,
388,598,599,0,
49,599,600,1,
16,48,601,1,
487,601,602,0,
16,602,603,1,
600,603,604,1,
503,604,605,0,
600,605,606,1,
597,606,607,1,
499,607,608,0,
597,608,609,1,
53,21,610,1,
388,610,611,0,
53,611,612,1,
20,52,613,1,
487,613,614,0,
20,614,615,1,
612,615,616,1,
503,616,617,0,
612,617,618,1,
22,54,619,1,
487,619,620,0,
22,620,621,1,
621,492,622,1,
621,492,623,0,
622,623,624,1,
618,624,625,1,
407,625,626,0,
618,626,627,1,
609,627,628,1,
419,628,629,0,
609,629,630,1,
431,0,631,2,
630,631,632,0,
588,632,633,1,
443,633,634,0,
588,634,635,1,
478,467,636,1,
478,467,637,0,
636,637,638,1,
638,0,639,2,
455,0,640,2,
639,640,641,0,
635,641,642,0,
403,425,643,0,
413,449,644,0,
643,644,645,0,
437,474,646,0,
461,392,647,0,
646,647,648,0,
645,648,649,0,
649,0,650,2,
476,441,651,0,
651,395,652,0,
453,465,653,0,
429,417,654,0,
653,654,655,0,
652,655,656,0,
399,0,657,2,
656,657,658,0,
658,0,659,2,
650,659,660,0,
486,0,661,2,
661,0,662,2,
660,662,663,0,
663,0,664,2,
486,664,665,1,
642,665,666,0,
486,666,667,1,
660,486,668,1,
660,486,669,0,
668,669,670,1,
667,670,671,0,
671,0,672,2,
0,32,673,1,
388,673,674,0,
0,674,675,1,
672,675,676,1,
443,0,677,2,
431,0,678,2,
559,678,679,0,
503,0,680,2,
407,680,681,0,
681,0,682,2,
679,682,683,0,
683,0,684,2,
684,0,685,2,
677,685,686,0,
686,0,687,2,
574,687,688,0,
688,0,689,2,
677,499,690,0,
690,0,691,2,
495,691,692,0,
692,0,693,2,
502,0,694,2,
693,694,695,0,
695,0,696,2,
559,677,697,0,
697,0,698,2,
443,431,699,1,
443,431,700,0,
699,700,701,1,
701,0,702,2,
702,0,703,2,
698,703,704,0,
696,704,705,0,
705,0,706,2,
689,706,707,0,
419,0,708,2,
702,708,709,0,
709,0,710,2,
571,0,711,2,
710,711,712,0,
712,0,713,2,
537,682,714,0,
714,0,715,2,
679,0,716,2,
715,716,717,0,
717,0,718,2,
677,718,719,0,
719,0,720,2,
720,552,721,0,
721,0,722,2,
713,722,723,0,
537,499,724,0,
724,0,725,2,
591,725,726,0,
726,0,727,2,
600,0,728,2,
727,728,729,0,
729,0,730,2,
679,0,731,2,
443,731,732,0,
730,732,733,0,
733,0,734,2,
723,734,735,0,
707,735,736,0,
499,559,737,0,
612,0,738,2,
737,738,739,0,
739,0,740,2,
431,740,741,0,
741,0,742,2,
524,0,743,2,
742,743,744,0,
684,603,745,0,
745,0,746,2,
718,0,747,2,
615,747,748,0,
748,0,749,2,
746,749,750,0,
744,750,751,0,
751,0,752,2,
443,752,753,0,
753,0,754,2,
503,499,755,0,
702,755,756,0,
756,0,757,2,
710,757,758,0,
562,0,759,2,
758,759,760,0,
760,0,761,2,
754,761,762,0,
559,690,763,0,
763,0,764,2,
703,764,765,0,
765,0,766,2,
766,0,767,2,
540,767,768,0,
768,0,769,2,
703,549,770,0,
770,0,771,2,
769,771,772,0,
565,0,773,2,
702,499,774,0,
774,0,775,2,
710,775,776,0,
773,776,777,0,
777,0,778,2,
772,778,779,0,
762,779,780,0,
736,780,781,0,
419,492,782,1,
419,492,783,0,
782,783,784,1,
784,0,785,2,
785,690,786,0,
786,0,787,2,
787,703,788,0,
788,543,789,0,
789,0,790,2,
677,785,791,0,
791,0,792,2,
506,792,793,0,
766,0,794,2,
793,794,795,0,
795,0,796,2,
790,796,797,0,
559,724,798,0,
798,0,799,2,
515,799,800,0,
443,800,801,0,
801,0,802,2,
704,527,803,0,
503,677,804,0,
804,0,805,2,
690,0,806,2,
805,806,807,0,
803,807,808,0,
808,0,809,2,
802,809,810,0,
503,690,811,0,
811,0,812,2,
490,812,813,0,
813,704,814,0,
814,0,815,2,
810,815,816,0,
797,816,817,0,
503,724,818,0,
818,0,819,2,
594,819,820,0,
820,732,821,0,
821,0,822,2,
431,443,823,0,
785,0,824,2,
621,824,825,0,
823,825,826,0,
826,0,827,2,
822,827,828,0,
785,724,829,0,
829,0,830,2,
518,830,831,0,
443,831,832,0,
832,0,833,2,
828,833,834,0,
834,641,835,0,
817,835,836,0,
781,836,837,0,
837,0,838,2,
838,660,839,0,
839,0,840,2,
840,486,841,1,
661,841,842,0,
530,498,843,1,
499,843,844,0,
530,844,845,1,
509,546,846,1,
499,846,847,0,
509,847,848,1,
845,848,849,1,
559,849,850,0,
845,850,851,1,
568,0,852,2,
852,555,853,1,
407,853,854,0,
852,854,855,1,
578,0,856,2,
407,856,857,0,
855,857,858,1,
559,858,859,0,
855,859,860,1,
851,860,861,1,
537,861,862,0,
851,862,863,1,
618,597,864,1,
499,864,865,0,
618,865,866,1,
606,521,867,1,
499,867,868,0,
606,868,869,1,
866,869,870,1,
559,870,871,0,
866,871,872,1,
624,499,873,0,
419,0,874,2,
873,874,875,0,
872,875,876,1,
431,876,877,0,
872,877,878,1,
863,878,879,1,
443,879,880,0,
863,880,881,1,
881,641,882,0,
486,664,883,1,
882,883,884,0,
486,884,885,1,
885,670,886,0,
886,0,887,2,
842,887,888,0,
502,490,889,1,
492,889,890,0,
502,890,891,1,
506,540,892,1,
503,892,893,0,
506,893,894,1,
891,894,895,1,
499,895,896,0,
891,896,897,1,
524,518,898,1,
492,898,899,0,
524,899,900,1,
495,527,901,1,
492,901,902,0,
495,902,903,1,
900,903,904,1,
499,904,905,0,
900,905,906,1,
897,906,907,1,
419,907,908,0,
897,908,909,1,
562,571,910,1,
503,910,911,0,
562,911,912,1,
912,0,913,2,
492,574,914,0,
913,914,915,1,
499,915,916,0,
913,916,917,1,
543,549,918,1,
503,918,919,0,
543,919,920,1,
552,773,921,1,
503,921,922,0,
552,922,923,1,
920,923,924,1,
499,924,925,0,
920,925,926,1,
917,926,927,1,
419,927,928,0,
917,928,929,1,
909,929,930,1,
537,930,931,0,
909,931,932,1,
621,612,933,1,
503,933,934,0,
621,934,935,1,
591,615,936,1,
492,936,937,0,
591,937,938,1,
935,938,939,1,
499,939,940,0,
935,940,941,1,
594,600,942,1,
503,942,943,0,
594,943,944,1,
603,515,945,1,
503,945,946,0,
603,946,947,1,
944,947,948,1,
499,948,949,0,
944,949,950,1,
941,950,951,1,
559,951,952,0,
941,952,953,1,
503,499,954,0,
954,0,955,2,
419,955,956,1,
419,955,957,0,
956,957,958,1,
958,0,959,2,
953,959,960,1,
431,960,961,0,
953,961,962,1,
932,962,963,1,
443,963,964,0,
932,964,965,1,
965,641,966,0,
486,664,967,1,
966,967,968,0,
486,968,969,1,
969,670,970,0,
970,0,971,2,
888,971,972,0,
972,676,973,1,
972,675,974,1,
676,974,975,0,
675,975,976,1,
903,891,977,1,
499,977,978,0,
903,978,979,1,
947,900,980,1,
499,980,981,0,
947,981,982,1,
979,982,983,1,
419,983,984,0,
979,984,985,1,
894,920,986,1,
499,986,987,0,
894,987,988,1,
913,923,989,1,
407,989,990,0,
913,990,991,1,
988,991,992,1,
559,992,993,0,
988,993,994,1,
985,994,995,1,
537,995,996,0,
985,996,997,1,
503,935,998,1,
499,998,999,0,
503,999,1000,1,
938,944,1001,1,
499,1001,1002,0,
938,1002,1003,1,
1000,1003,1004,1,
559,1004,1005,0,
1000,1005,1006,1,
431,0,1007,2,
1006,1007,1008,0,
997,1008,1009,1,
443,1009,1010,0,
997,1010,1011,1,
1011,641,1012,0,
486,664,1013,1,
1012,1013,1014,0,
486,1014,1015,1,
1015,670,1016,0,
1016,0,1017,2,
33,1,1018,1,
487,1018,1019,0,
33,1019,1020,1,
1017,1020,1021,1,
976,1021,1022,1,
976,1020,1023,1,
1021,1023,1024,0,
1020,1024,1025,1,
845,869,1026,1,
419,1026,1027,0,
845,1027,1028,1,
855,848,1029,1,
419,1029,1030,0,
855,1030,1031,1,
1028,1031,1032,1,
537,1032,1033,0,
1028,1033,1034,1,
866,873,1035,1,
419,1035,1036,0,
866,1036,1037,1,
431,0,1038,2,
1037,1038,1039,0,
1034,1039,1040,1,
443,1040,1041,0,
1034,1041,1042,1,
1042,641,1043,0,
486,664,1044,1,
1043,1044,1045,0,
486,1045,1046,1,
1046,670,1047,0,
1047,0,1048,2,
34,2,1049,1,
487,1049,1050,0,
34,1050,1051,1,
1048,1051,1052,1,
1025,1052,1053,1,
1025,1051,1054,1,
1052,1054,1055,0,
1051,1055,1056,1,
941,0,1057,2,
955,1057,1058,1,
559,1058,1059,0,
955,1059,1060,1,
1060,431,1061,1,
1060,431,1062,0,
1061,1062,1063,1,
950,906,1064,1,
559,1064,1065,0,
950,1065,1066,1,
926,897,1067,1,
419,1067,1068,0,
926,1068,1069,1,
1066,1069,1070,1,
537,1070,1071,0,
1066,1071,1072,1,
1072,0,1073,2,
1063,1073,1074,1,
677,1074,1075,0,
1063,1075,1076,1,
1076,0,1077,2,
641,1077,1078,0,
486,664,1079,1,
1078,1079,1080,0,
486,1080,1081,1,
1081,670,1082,0,
1082,0,1083,2,
35,3,1084,1,
487,1084,1085,0,
35,1085,1086,1,
1083,1086,1087,1,
1056,1087,1088,1,
1056,1086,1089,1,
1087,1089,1090,0,
1086,1090,1091,1,
533,609,1092,1,
419,1092,1093,0,
533,1093,1094,1,
558,512,1095,1,
419,1095,1096,0,
558,1096,1097,1,
1094,1097,1098,1,
537,1098,1099,0,
1094,1099,1100,1,
627,559,1101,0,
431,0,1102,2,
1101,1102,1103,0,
1100,1103,1104,1,
443,1104,1105,0,
1100,1105,1106,1,
1106,641,1107,0,
486,664,1108,1,
1107,1108,1109,0,
486,1109,1110,1,
1110,670,1111,0,
1111,0,1112,2,
36,4,1113,1,
487,1113,1114,0,
36,1114,1115,1,
1112,1115,1116,1,
1091,1116,1117,1,
1091,1115,1118,1,
1116,1118,1119,0,
1115,1119,1120,1,
982,1003,1121,1,
419,1121,1122,0,
982,1122,1123,1,
988,979,1124,1,
419,1124,1125,0,
988,1125,1126,1,
1123,1126,1127,1,
537,1127,1128,0,
1123,1128,1129,1,
419,0,1130,2,
1000,1130,1131,0,
431,0,1132,2,
1131,1132,1133,0,
1129,1133,1134,1,
443,1134,1135,0,
1129,1135,1136,1,
1136,641,1137,0,
486,664,1138,1,
1137,1138,1139,0,
486,1139,1140,1,
1140,670,1141,0,
1141,0,1142,2,
37,5,1143,1,
487,1143,1144,0,
37,1144,1145,1,
1142,1145,1146,1,
1120,1146,1147,1,
1120,1145,1148,1,
1146,1148,1149,0,
1145,1149,1150,1,
537,875,1151,0,
1151,0,1152,2,
851,872,1153,1,
431,1153,1154,0,
851,1154,1155,1,
1155,0,1156,2,
1152,1156,1157,1,
677,1157,1158,0,
1152,1158,1159,1,
1159,0,1160,2,
641,1160,1161,0,
486,664,1162,1,
1161,1162,1163,0,
486,1163,1164,1,
1164,670,1165,0,
1165,0,1166,2,
38,6,1167,1,
487,1167,1168,0,
38,1168,1169,1,
1166,1169,1170,1,
1150,1170,1171,1,
1150,1169,1172,1,
1170,1172,1173,0,
1169,1173,1174,1,
953,909,1175,1,
537,1175,1176,0,
953,1176,1177,1,
959,537,1178,0,
1177,1178,1179,1,
443,1179,1180,0,
1177,1180,1181,1,
1181,641,1182,0,
486,664,1183,1,
1182,1183,1184,0,
486,1184,1185,1,
1185,670,1186,0,
1186,0,1187,2,
39,7,1188,1,
487,1188,1189,0,
39,1189,1190,1,
1187,1190,1191,1,
1174,1191,1192,1,
1174,1190,1193,1,
1191,1193,1194,0,
1190,1194,1195,1,
630,536,1196,1,
537,1196,1197,0,
630,1197,1198,1,
641,677,1199,0,
1198,1199,1200,0,
486,664,1201,1,
1200,1201,1202,0,
486,1202,1203,1,
1203,670,1204,0,
1204,0,1205,2,
40,8,1206,1,
487,1206,1207,0,
40,1207,1208,1,
1205,1208,1209,1,
1195,1209,1210,1,
1195,1208,1211,1,
1209,1211,1212,0,
1208,1212,1213,1,
1006,985,1214,1,
537,1214,1215,0,
1006,1215,1216,1,
1216,1199,1217,0,
486,664,1218,1,
1217,1218,1219,0,
486,1219,1220,1,
1220,670,1221,0,
1221,0,1222,2,
41,9,1223,1,
487,1223,1224,0,
41,1224,1225,1,
1222,1225,1226,1,
1213,1226,1227,1,
1213,1225,1228,1,
1226,1228,1229,0,
1225,1229,1230,1,
1037,1028,1231,1,
537,1231,1232,0,
1037,1232,1233,1,
1233,1199,1234,0,
486,664,1235,1,
1234,1235,1236,0,
486,1236,1237,1,
1237,670,1238,0,
1238,0,1239,2,
10,42,1240,1,
388,1240,1241,0,
10,1241,1242,1,
1239,1242,1243,1,
1230,1243,1244,1,
1230,1242,1245,1,
1243,1245,1246,0,
1242,1246,1247,1,
1066,0,1248,2,
1248,1060,1249,1,
431,1249,1250,0,
1248,1250,1251,1,
1251,0,1252,2,
1199,1252,1253,0,
486,664,1254,1,
1253,1254,1255,0,
486,1255,1256,1,
1256,670,1257,0,
1257,0,1258,2,
11,43,1259,1,
388,1259,1260,0,
11,1260,1261,1,
1258,1261,1262,1,
1247,1262,1263,1,
1247,1261,1264,1,
1262,1264,1265,0,
1261,1265,1266,1,
1094,1101,1267,1,
431,1267,1268,0,
1094,1268,1269,1,
1199,1269,1270,0,
486,664,1271,1,
1270,1271,1272,0,
486,1272,1273,1,
1273,670,1274,0,
1274,0,1275,2,
12,44,1276,1,
388,1276,1277,0,
12,1277,1278,1,
1275,1278,1279,1,
1266,1279,1280,1,
1266,1278,1281,1,
1279,1281,1282,0,
1278,1282,1283,1,
1131,1123,1284,1,
537,1284,1285,0,
1131,1285,1286,1,
1286,1199,1287,0,
486,664,1288,1,
1287,1288,1289,0,
486,1289,1290,1,
1290,670,1291,0,
1291,0,1292,2,
13,45,1293,1,
388,1293,1294,0,
13,1294,1295,1,
1292,1295,1296,1,
1283,1296,1297,1,
1283,1295,1298,1,
1296,1298,1299,0,
1295,1299,1300,1,
878,677,1301,0,
1301,641,1302,0,
486,664,1303,1,
1302,1303,1304,0,
486,1304,1305,1,
1305,670,1306,0,
1306,0,1307,2,
14,46,1308,1,
388,1308,1309,0,
14,1309,1310,1,
1307,1310,1311,1,
1300,1311,1312,1,
1300,1310,1313,1,
1311,1313,1314,0,
1310,1314,1315,1,
677,641,1316,0,
1316,962,1317,0,
486,664,1318,1,
1317,1318,1319,0,
486,1319,1320,1,
1320,670,1321,0,
1321,0,1322,2,
47,15,1323,1,
487,1323,1324,0,
47,1324,1325,1,
1322,1325,1326,1,
1315,1326,1327,1,
1315,1325,1328,1,
1326,1328,1329,0,
1325,1329,1330,1,
1199,632,1331,0,
486,664,1332,1,
1331,1332,1333,0,
486,1333,1334,1,
1334,670,1335,0,
1335,0,1336,2,
48,16,1337,1,
487,1337,1338,0,
48,1338,1339,1,
1336,1339,1340,1,
1330,1340,1341,1,
1330,1339,1342,1,
1340,1342,1343,0,
1339,1343,1344,1,
1199,1008,1345,0,
486,664,1346,1,
1345,1346,1347,0,
486,1347,1348,1,
1348,670,1349,0,
1349,0,1350,2,
49,17,1351,1,
487,1351,1352,0,
49,1352,1353,1,
1350,1353,1354,1,
1344,1354,1355,1,
1344,1353,1356,1,
1354,1356,1357,0,
1353,1357,1358,1,
1199,1039,1359,0,
486,664,1360,1,
1359,1360,1361,0,
486,1361,1362,1,
1362,670,1363,0,
1363,0,1364,2,
50,18,1365,1,
487,1365,1366,0,
50,1366,1367,1,
1364,1367,1368,1,
1358,1368,1369,1,
1358,1367,1370,1,
1368,1370,1371,0,
1367,1371,1372,1,
1063,0,1373,2,
1199,1373,1374,0,
486,664,1375,1,
1374,1375,1376,0,
486,1376,1377,1,
1377,670,1378,0,
1378,0,1379,2,
51,19,1380,1,
487,1380,1381,0,
51,1381,1382,1,
1379,1382,1383,1,
1372,1383,1384,1,
1372,1382,1385,1,
1383,1385,1386,0,
1382,1386,1387,1,
1199,1103,1388,0,
486,664,1389,1,
1388,1389,1390,0,
486,1390,1391,1,
1391,670,1392,0,
1392,0,1393,2,
52,20,1394,1,
487,1394,1395,0,
52,1395,1396,1,
1393,1396,1397,1,
1387,1397,1398,1,
1387,1396,1399,1,
1397,1399,1400,0,
1396,1400,1401,1,
1199,1133,1402,0,
486,664,1403,1,
1402,1403,1404,0,
486,1404,1405,1,
1405,670,1406,0,
1406,0,1407,2,
53,21,1408,1,
487,1408,1409,0,
53,1409,1410,1,
1407,1410,1411,1,
1401,1411,1412,1,
1401,1410,1413,1,
1411,1413,1414,0,
1410,1414,1415,1,
1152,0,1416,2,
1199,1416,1417,0,
486,664,1418,1,
1417,1418,1419,0,
486,1419,1420,1,
1420,670,1421,0,
1421,0,1422,2,
54,22,1423,1,
487,1423,1424,0,
54,1424,1425,1,
1422,1425,1426,1,
1415,1426,1427,1,
1415,1425,1428,1,
1426,1428,1429,0,
1425,1429,1430,1,
1297,0,1431,2,
1312,0,1432,2,
1431,1432,1433,0,
1327,0,1434,2,
1341,0,1435,2,
1434,1435,1436,0,
1433,1436,1437,0,
1280,1263,1438,1,
1280,1263,1439,0,
1438,1439,1440,1,
1227,1244,1441,1,
1227,1244,1442,0,
1441,1442,1443,1,
1440,1443,1444,1,
1440,1443,1445,0,
1444,1445,1446,1,
1446,0,1447,2,
1437,1447,1448,0,
1384,0,1449,2,
1398,0,1450,2,
1449,1450,1451,0,
1199,1178,1452,0,
486,664,1453,1,
1452,1453,1454,0,
486,1454,1455,1,
1455,670,1456,0,
1456,0,1457,2,
1457,1430,1458,1,
1458,0,1459,2,
1459,0,1460,2,
1430,1457,1461,1,
1430,1457,1462,0,
1461,1462,1463,1,
661,1463,1464,1,
1464,0,1465,2,
1460,1465,1466,0,
1466,0,1467,2,
1467,0,1468,2,
1451,1468,1469,0,
1369,0,1470,2,
1355,0,1471,2,
1470,1471,1472,0,
1472,0,1473,2,
1473,0,1474,2,
1469,1474,1475,0,
1412,0,1476,2,
1427,0,1477,2,
1476,1477,1478,0,
1475,1478,1479,0,
1479,0,1480,2,
1480,0,1481,2,
1448,1481,1482,0,
1482,0,1483,2,
1022,1053,1484,1,
1022,1053,1485,0,
1484,1485,1486,1,
1486,0,1487,2,
1088,1117,1488,1,
1088,1117,1489,0,
1488,1489,1490,1,
1490,0,1491,2,
1487,1491,1492,0,
1210,1192,1493,1,
1210,1192,1494,0,
1493,1494,1495,1,
1495,0,1496,2,
1147,1171,1497,1,
1147,1171,1498,0,
1497,1498,1499,1,
1499,0,1500,2,
1496,1500,1501,0,
1501,0,1502,2,
1502,0,1503,2,
1492,1503,1504,0,
1504,0,1505,2,
1446,0,1506,2,
1505,1506,1507,0,
1507,1437,1508,0,
1508,0,1509,2,
1480,0,1510,2,
1509,1510,1511,0,
1511,0,1512,2,
887,842,1513,1,
1427,0,1514,2,
1398,0,1515,2,
1312,0,1516,2,
971,888,1517,1,
1517,0,1518,2,
1513,1518,1519,0,
1519,0,1520,2,
973,0,1521,2,
1520,1521,1522,0,
1522,0,1523,2,
1022,0,1524,2,
1523,1524,1525,0,
1525,0,1526,2,
1053,0,1527,2,
1526,1527,1528,0,
1528,0,1529,2,
1088,0,1530,2,
1529,1530,1531,0,
1531,0,1532,2,
1117,0,1533,2,
1532,1533,1534,0,
1534,0,1535,2,
1147,0,1536,2,
1535,1536,1537,0,
1537,0,1538,2,
1171,0,1539,2,
1538,1539,1540,0,
1540,0,1541,2,
1192,0,1542,2,
1541,1542,1543,0,
1543,0,1544,2,
1210,0,1545,2,
1544,1545,1546,0,
1546,0,1547,2,
1227,0,1548,2,
1547,1548,1549,0,
1549,0,1550,2,
1244,0,1551,2,
1550,1551,1552,0,
1552,0,1553,2,
1263,0,1554,2,
1553,1554,1555,0,
1555,0,1556,2,
1280,0,1557,2,
1556,1557,1558,0,
1558,0,1559,2,
1431,1559,1560,0,
1560,0,1561,2,
1516,1561,1562,0,
1562,0,1563,2,
1434,1563,1564,0,
1564,0,1565,2,
1435,1565,1566,0,
1566,0,1567,2,
1471,1567,1568,0,
1568,0,1569,2,
1470,1569,1570,0,
1570,0,1571,2,
1449,1571,1572,0,
1572,0,1573,2,
1515,1573,1574,0,
1574,0,1575,2,
1476,1575,1576,0,
1576,0,1577,2,
1514,1577,1578,0,
1578,0,1579,2,
1460,1579,1580,0,
1580,0,1581,2,
1464,0,1582,2,
1581,1582,1583,0,
1583,0,1584,2,
1584,0,1585,2,
1585,0,1586,2,
1513,1586,1587,0,
1478,1467,1588,1,
1478,1467,1589,0,
1588,1589,1590,1,
973,1517,1591,1,
973,1517,1592,0,
1591,1592,1593,1,
1593,1487,1594,0,
1594,0,1595,2,
1595,1491,1596,0,
1596,0,1597,2,
1500,1597,1598,0,
1598,0,1599,2,
1496,1599,1600,0,
1600,0,1601,2,
1443,0,1602,2,
1601,1602,1603,0,
1603,0,1604,2,
1440,0,1605,2,
1604,1605,1606,0,
1606,0,1607,2,
1607,1433,1608,0,
1608,0,1609,2,
1609,1436,1610,0,
1610,0,1611,2,
1473,0,1612,2,
1611,1612,1613,0,
1613,0,1614,2,
1614,1469,1615,0,
1615,0,1616,2,
1590,1616,1617,0,
1587,1617,1618,0,
1492,1502,1619,1,
1492,1502,1620,0,
1619,1620,1621,1,
1446,0,1622,2,
1621,1622,1623,0,
1623,0,1624,2,
1624,1437,1625,0,
1625,0,1626,2,
1451,1626,1627,0,
1473,0,1628,2,
1627,1628,1629,0,
1629,0,1630,2,
1467,0,1631,2,
1630,1631,1632,0,
1478,1632,1633,0,
1633,0,1634,2,
973,1517,1635,1,
1585,1635,1636,0,
973,1636,1637,1,
1022,1053,1638,1,
1584,1638,1639,0,
1022,1639,1640,1,
1637,1640,1641,1,
1617,1641,1642,0,
1637,1642,1643,1,
1618,1643,1644,1,
1634,1644,1645,0,
1618,1645,1646,1,
1512,1646,1647,0,
1647,0,1648,2,
1648,0,1649,2,
1483,1649,1650,0,
1483,0,1651,2,
1513,1517,1652,1,
1584,1652,1653,0,
1513,1653,1654,1,
1022,973,1655,1,
1585,1655,1656,0,
1022,1656,1657,1,
1654,1657,1658,1,
1617,1658,1659,0,
1654,1659,1660,1,
1634,1660,1661,0,
1661,0,1662,2,
1662,0,1663,2,
1512,1663,1664,0,
1664,0,1665,2,
1651,1665,1666,1,
1651,1665,1667,0,
1666,1667,1668,1,
1668,0,1669,2,
1650,1669,1670,1,
1650,1669,1671,0,
1053,1088,1672,1,
1584,1672,1673,0,
1053,1673,1674,1,
1617,0,1675,2,
1674,1657,1676,1,
1675,1676,1677,0,
1674,1677,1678,1,
1675,0,1679,2,
1654,1679,1680,0,
1678,1680,1681,1,
1633,1681,1682,0,
1678,1682,1683,1,
1512,1683,1684,0,
1684,0,1685,2,
1685,0,1686,2,
1483,1686,1687,0,
1687,1671,1688,1,
1687,1671,1689,0,
1117,1088,1690,1,
1585,1690,1691,0,
1117,1691,1692,1,
1692,1640,1693,1,
1675,1693,1694,0,
1692,1694,1695,1,
1587,1637,1696,1,
1617,1696,1697,0,
1587,1697,1698,1,
1695,1698,1699,1,
1633,1699,1700,0,
1695,1700,1701,1,
1512,1701,1702,0,
1702,0,1703,2,
1703,0,1704,2,
1483,1704,1705,0,
1705,1689,1706,1,
1705,1689,1707,0,
1117,1147,1708,1,
1584,1708,1709,0,
1117,1709,1710,1,
1674,1710,1711,1,
1617,1711,1712,0,
1674,1712,1713,1,
1713,1660,1714,1,
1633,1714,1715,0,
1713,1715,1716,1,
1512,1716,1717,0,
1717,0,1718,2,
1718,0,1719,2,
1483,1719,1720,0,
1720,1707,1721,1,
1720,1707,1722,0,
1634,1618,1723,0,
1723,0,1724,2,
1147,1171,1725,1,
1584,1725,1726,0,
1147,1726,1727,1,
1727,1692,1728,1,
1675,1728,1729,0,
1727,1729,1730,1,
1643,1730,1731,1,
1634,1731,1732,0,
1643,1732,1733,1,
1733,0,1734,2,
1724,1734,1735,1,
1512,1735,1736,0,
1724,1736,1737,1,
1651,1737,1738,1,
1651,1737,1739,0,
1738,1739,1740,1,
1740,0,1741,2,
1741,1722,1742,1,
1741,1722,1743,0,
1634,1680,1744,0,
1744,0,1745,2,
1171,1192,1746,1,
1584,1746,1747,0,
1171,1747,1748,1,
1748,1710,1749,1,
1675,1749,1750,0,
1748,1750,1751,1,
1678,1751,1752,1,
1634,1752,1753,0,
1678,1753,1754,1,
1754,0,1755,2,
1745,1755,1756,1,
1512,1756,1757,0,
1745,1757,1758,1,
1651,1758,1759,1,
1651,1758,1760,0,
1759,1760,1761,1,
1761,0,1762,2,
1762,1743,1763,1,
1762,1743,1764,0,
1192,1210,1765,1,
1584,1765,1766,0,
1192,1766,1767,1,
1727,1767,1768,1,
1617,1768,1769,0,
1727,1769,1770,1,
1695,1770,1771,1,
1634,1771,1772,0,
1695,1772,1773,1,
1698,1634,1774,0,
1773,1774,1775,1,
1511,1775,1776,0,
1773,1776,1777,1,
1777,1483,1778,0,
1778,1764,1779,1,
1778,1764,1780,0,
1227,1210,1781,1,
1585,1781,1782,0,
1227,1782,1783,1,
1783,1748,1784,1,
1675,1784,1785,0,
1783,1785,1786,1,
1713,1786,1787,1,
1634,1787,1788,0,
1713,1788,1789,1,
1789,0,1790,2,
1662,1790,1791,1,
1512,1791,1792,0,
1662,1792,1793,1,
1793,0,1794,2,
1794,1780,1795,1,
1794,1780,1796,0,
1227,1244,1797,1,
1584,1797,1798,0,
1227,1798,1799,1,
1767,1799,1800,1,
1617,1800,1801,0,
1767,1801,1802,1,
1730,1802,1803,1,
1634,1803,1804,0,
1730,1804,1805,1,
1805,1646,1806,1,
1511,1806,1807,0,
1805,1807,1808,1,
1808,1796,1809,1,
1808,1796,1810,0,
1244,1263,1811,1,
1584,1811,1812,0,
1244,1812,1813,1,
1813,1783,1814,1,
1675,1814,1815,0,
1813,1815,1816,1,
1816,1751,1817,1,
1633,1817,1818,0,
1816,1818,1819,1,
1683,1819,1820,1,
1512,1820,1821,0,
1683,1821,1822,1,
1822,1810,1823,1,
1822,1810,1824,0,
1263,1280,1825,1,
1584,1825,1826,0,
1263,1826,1827,1,
1827,1799,1828,1,
1675,1828,1829,0,
1827,1829,1830,1,
1770,1830,1831,1,
1634,1831,1832,0,
1770,1832,1833,1,
1701,1833,1834,1,
1512,1834,1835,0,
1701,1835,1836,1,
1836,1824,1837,1,
1836,1824,1838,0,
1280,1297,1839,1,
1584,1839,1840,0,
1280,1840,1841,1,
1841,1813,1842,1,
1675,1842,1843,0,
1841,1843,1844,1,
1844,1786,1845,1,
1633,1845,1846,0,
1844,1846,1847,1,
1716,1847,1848,1,
1512,1848,1849,0,
1716,1849,1850,1,
1850,1838,1851,1,
1850,1838,1852,0,
1802,0,1853,2,
1431,1516,1854,1,
1584,1854,1855,0,
1431,1855,1856,1,
1827,0,1857,2,
1856,1857,1858,1,
1675,1858,1859,0,
1856,1859,1860,1,
1853,1860,1861,1,
1634,1861,1862,0,
1853,1862,1863,1,
1863,1734,1864,1,
1511,1864,1865,0,
1863,1865,1866,1,
1511,1724,1867,1,
1511,1724,1868,0,
1867,1868,1869,1,
1869,0,1870,2,
1651,1870,1871,0,
1871,0,1872,2,
1866,1872,1873,0,
1873,0,1874,2,
1874,1852,1875,1,
1874,1852,1876,0,
1511,1745,1877,1,
1511,1745,1878,0,
1877,1878,1879,1,
1879,0,1880,2,
1651,1880,1881,0,
1881,0,1882,2,
1312,1327,1883,1,
1584,1883,1884,0,
1312,1884,1885,1,
1885,1841,1886,1,
1675,1886,1887,0,
1885,1887,1888,1,
1816,1888,1889,1,
1634,1889,1890,0,
1816,1890,1891,1,
1891,1754,1892,1,
1511,1892,1893,0,
1891,1893,1894,1,
1894,0,1895,2,
1882,1895,1896,0,
1896,0,1897,2,
1897,1876,1898,1,
1897,1876,1899,0,
1830,0,1900,2,
1435,1434,1901,1,
1585,1901,1902,0,
1435,1902,1903,1,
1903,1856,1904,1,
1675,1904,1905,0,
1903,1905,1906,1,
1900,1906,1907,1,
1634,1907,1908,0,
1900,1908,1909,1,
1773,0,1910,2,
1909,1910,1911,1,
1511,1911,1912,0,
1909,1912,1913,1,
1511,0,1914,2,
1774,1914,1915,0,
1915,0,1916,2,
1916,0,1917,2,
1651,1917,1918,0,
1918,0,1919,2,
1913,1919,1920,0,
1920,0,1921,2,
1921,1899,1922,1,
1921,1899,1923,0,
1665,0,1924,2,
1651,1924,1925,0,
1925,0,1926,2,
1790,0,1927,2,
1511,1927,1928,0,
1928,0,1929,2,
1926,1929,1930,0,
1471,1435,1931,1,
1585,1931,1932,0,
1471,1932,1933,1,
1933,0,1934,2,
1885,1934,1935,1,
1617,1935,1936,0,
1885,1936,1937,1,
1844,1937,1938,1,
1634,1938,1939,0,
1844,1939,1940,1,
1940,0,1941,2,
1930,1941,1942,0,
1942,0,1943,2,
1943,1923,1944,1,
1943,1923,1945,0,
1648,0,1946,2,
1651,1946,1947,0,
1947,0,1948,2,
1512,0,1949,2,
1805,1949,1950,0,
1950,0,1951,2,
1948,1951,1952,0,
1470,1471,1953,1,
1585,1953,1954,0,
1470,1954,1955,1,
1955,1903,1956,1,
1675,1956,1957,0,
1955,1957,1958,1,
1958,1860,1959,1,
1633,1959,1960,0,
1958,1960,1961,1,
1952,1961,1962,0,
1962,0,1963,2,
1963,1945,1964,1,
1963,1945,1965,0,
1685,0,1966,2,
1651,1966,1967,0,
1967,0,1968,2,
1511,1819,1969,0,
1969,0,1970,2,
1968,1970,1971,0,
1449,1470,1972,1,
1585,1972,1973,0,
1449,1973,1974,1,
1974,1933,1975,1,
1675,1975,1976,0,
1974,1976,1977,1,
1977,0,1978,2,
1888,1978,1979,1,
1634,1979,1980,0,
1888,1980,1981,1,
1981,0,1982,2,
1971,1982,1983,0,
1983,0,1984,2,
1984,1965,1985,1,
1984,1965,1986,0,
1703,0,1987,2,
1651,1987,1988,0,
1988,0,1989,2,
1511,1833,1990,0,
1990,0,1991,2,
1989,1991,1992,0,
1449,1515,1993,1,
1584,1993,1994,0,
1449,1994,1995,1,
1995,1955,1996,1,
1675,1996,1997,0,
1995,1997,1998,1,
1998,1906,1999,1,
1633,1999,2000,0,
1998,2000,2001,1,
1992,2001,2002,0,
2002,0,2003,2,
2003,1986,2004,1,
2003,1986,2005,0,
1515,1476,2006,1,
1584,2006,2007,0,
1515,2007,2008,1,
1974,2008,2009,1,
1617,2009,2010,0,
1974,2010,2011,1,
1718,0,2012,2,
1651,2012,2013,0,
2013,0,2014,2,
2011,2014,2015,0,
1511,1847,2016,0,
2016,0,2017,2,
1633,1937,2018,0,
2018,0,2019,2,
2017,2019,2020,0,
2015,2020,2021,0,
2021,0,2022,2,
2022,2005,2023,1,
2022,2005,2024,0,
1476,1514,2025,1,
1584,2025,2026,0,
1476,2026,2027,1,
1995,2027,2028,1,
1617,2028,2029,0,
1995,2029,2030,1,
1737,0,2031,2,
1651,2031,2032,0,
2032,0,2033,2,
2030,2033,2034,0,
1863,1512,2035,1,
1863,1512,2036,0,
2035,2036,2037,1,
1958,1634,2038,1,
1958,1634,2039,0,
2038,2039,2040,1,
2037,2040,2041,0,
2034,2041,2042,0,
2042,0,2043,2,
2043,2024,2044,1,
2043,2024,2045,0,
1398,1412,2046,0,
2046,1427,2047,0,
1369,1355,2048,0,
2048,1384,2049,0,
2047,2049,2050,0,
1312,1327,2051,0,
2051,1341,2052,0,
1280,1263,2053,0,
2053,1297,2054,0,
2052,2054,2055,0,
2050,2055,2056,0,
1171,1147,2057,0,
1880,1870,2058,1,
1880,1870,2059,0,
2058,2059,2060,1,
2060,0,2061,2,
841,661,2062,1,
1669,2062,2063,1,
1669,2062,2064,0,
2063,2064,2065,1,
2065,0,2066,2,
2061,2066,2067,0,
2067,0,2068,2,
2068,1483,2069,0,
1916,0,2070,2,
2069,2070,2071,0,
2071,0,2072,2,
2072,0,2073,2,
2057,2073,2074,0,
1117,1244,2075,0,
1088,2075,2076,0,
2074,2076,2077,0,
1192,1210,2078,0,
1227,2078,2079,0,
1053,973,2080,0,
2080,1022,2081,0,
2079,2081,2082,0,
2077,2082,2083,0,
2056,2083,2084,0,
1459,2084,2085,0,
2085,0,2086,2,
1464,0,2087,2,
2086,2087,2088,0,
2088,0,2089,2,
656,2089,2090,0,
2090,0,2091,2,
2072,0,2092,2,
2091,2092,2093,0,
2093,0,2094,2,
2091,2094,2095,0,
395,0,2096,2,
399,2096,2097,0,
2093,1809,2098,0,
2098,0,2099,2,
1585,400,2100,0,
2100,1675,2101,1,
2100,1675,2102,0,
2101,2102,2103,1,
400,395,2104,1,
2104,0,2105,2,
2105,0,2106,2,
1617,2106,2107,0,
2107,0,2108,2,
2103,2108,2109,0,
2100,2105,2110,1,
2100,2105,2111,0,
2110,2111,2112,1,
2109,2112,2113,0,
2113,1633,2114,1,
2114,0,2115,2,
395,400,2116,0,
2116,0,2117,2,
416,2117,2118,1,
2115,2118,2119,1,
2100,1617,2120,1,
2120,0,2121,2,
2121,2105,2122,1,
2119,2122,2123,0,
2113,0,2124,2,
1634,2124,2125,0,
2125,0,2126,2,
1634,2118,2127,0,
2127,0,2128,2,
2126,2128,2129,0,
2113,0,2130,2,
2118,2130,2131,0,
2131,0,2132,2,
2129,2132,2133,0,
2133,1511,2134,1,
2134,0,2135,2,
2117,0,2136,2,
417,2136,2137,0,
2137,0,2138,2,
428,2138,2139,1,
2135,2139,2140,1,
2133,0,2141,2,
1512,2141,2142,0,
2142,0,2143,2,
1512,2139,2144,0,
2144,0,2145,2,
2143,2145,2146,0,
2133,0,2147,2,
2139,2147,2148,0,
2148,0,2149,2,
2146,2149,2150,0,
2150,1651,2151,1,
2151,0,2152,2,
2138,0,2153,2,
429,2153,2154,0,
2154,0,2155,2,
440,2155,2156,1,
2152,2156,2157,1,
2140,2157,2158,0,
2123,2158,2159,0,
2155,0,2160,2,
441,2160,2161,0,
2161,0,2162,2,
2162,0,2163,2,
453,2163,2164,0,
2164,0,2165,2,
2165,0,2166,2,
465,2166,2167,0,
476,2167,2168,1,
2168,0,2169,2,
2150,0,2170,2,
1483,2170,2171,0,
2171,0,2172,2,
1483,2156,2173,0,
2173,0,2174,2,
2172,2174,2175,0,
2150,0,2176,2,
2156,2176,2177,0,
2177,0,2178,2,
2175,2178,2179,0,
452,2162,2180,1,
2180,0,2181,2,
2179,2181,2182,0,
465,2165,2183,1,
2182,2183,2184,0,
2169,2184,2185,1,
2180,2179,2186,1,
2186,0,2187,2,
2185,2187,2188,0,
400,1584,2189,1,
2189,0,2190,2,
2183,2182,2191,1,
2190,2191,2192,0,
2188,2192,2193,0,
2159,2193,2194,0,
2194,0,2195,2,
476,0,2196,2,
2169,2196,2197,0,
2197,2184,2198,0,
2198,0,2199,2,
2195,2199,2200,0,
659,2200,2201,0,
476,0,2202,2,
464,2202,2203,0,
2097,2203,2204,0,
452,440,2205,0,
428,416,2206,0,
2205,2206,2207,0,
2204,2207,2208,0,
2208,0,2209,2,
2209,2095,2210,0,
2201,2210,2211,0,
2211,1808,2212,0,
2212,0,2213,2,
2099,2213,2214,0,
2214,0,2215,2,
2093,1795,2216,0,
2216,0,2217,2,
1794,2211,2218,0,
2218,0,2219,2,
2217,2219,2220,0,
2220,0,2221,2,
2093,1779,2222,0,
2222,0,2223,2,
2211,1778,2224,0,
2224,0,2225,2,
2223,2225,2226,0,
2226,0,2227,2,
2093,1763,2228,0,
2228,0,2229,2,
2211,1762,2230,0,
2230,0,2231,2,
2229,2231,2232,0,
2232,0,2233,2,
2093,1742,2234,0,
2234,0,2235,2,
2211,1741,2236,0,
2236,0,2237,2,
2235,2237,2238,0,
2238,0,2239,2,
2093,1721,2240,0,
2240,0,2241,2,
2211,1720,2242,0,
2242,0,2243,2,
2241,2243,2244,0,
2244,0,2245,2,
2093,1706,2246,0,
2246,0,2247,2,
2211,1705,2248,0,
2248,0,2249,2,
2247,2249,2250,0,
2250,0,2251,2,
474,461,2252,1,
474,461,2253,0,
2252,2253,2254,1,
2254,0,2255,2,
437,449,2256,1,
437,449,2257,0,
2256,2257,2258,1,
2258,0,2259,2,
2255,2259,2260,0,
413,425,2261,1,
413,425,2262,0,
2261,2262,2263,1,
2263,0,2264,2,
392,403,2265,1,
392,403,2266,0,
2265,2266,2267,1,
2267,0,2268,2,
2264,2268,2269,0,
2260,2269,2270,0,
2270,0,2271,2,
2271,2209,2272,0,
2272,0,2273,2,
661,2273,2274,0,
2274,0,2275,2,
1511,1651,2276,0,
1675,1585,2277,0,
2276,2277,2278,0,
2278,0,2279,2,
2275,2279,2280,0,
481,2280,2281,0,
1517,2084,2282,0,
2282,0,2283,2,
486,0,2284,2,
2283,2284,2285,0,
2285,2089,2286,1,
2285,2089,2287,0,
2286,2287,2288,1,
2288,0,2289,2,
476,2289,2290,0,
2290,0,2291,2,
2169,0,2292,2,
2089,2292,2293,0,
2293,0,2294,2,
2291,2294,2295,0,
2200,0,2296,2,
2209,2296,2297,0,
2297,0,2298,2,
2278,0,2299,2,
2298,2299,2300,0,
2300,2285,2301,0,
2185,0,2302,2,
2301,2302,2303,0,
2303,0,2304,2,
2295,2304,2305,0,
2305,0,2306,2,
2093,1688,2307,0,
2307,0,2308,2,
2211,1687,2309,0,
2309,0,2310,2,
2308,2310,2311,0,
2311,0,2312,2,
465,2289,2313,0,
2313,0,2314,2,
2183,0,2315,2,
2089,2315,2316,0,
2316,0,2317,2,
2314,2317,2318,0,
2191,0,2319,2,
2301,2319,2320,0,
2320,0,2321,2,
2318,2321,2322,0,
2322,0,2323,2,
453,2289,2324,0,
2324,0,2325,2,
2089,2180,2326,0,
2326,0,2327,2,
2325,2327,2328,0,
2186,2301,2329,0,
2329,0,2330,2,
2328,2330,2331,0,
2331,0,2332,2,
441,2289,2333,0,
2333,0,2334,2,
2156,2089,2335,0,
2335,0,2336,2,
2334,2336,2337,0,
2157,0,2338,2,
2301,2338,2339,0,
2339,0,2340,2,
2337,2340,2341,0,
2341,0,2342,2,
429,2289,2343,0,
2343,0,2344,2,
2139,2089,2345,0,
2345,0,2346,2,
2344,2346,2347,0,
2140,0,2348,2,
2301,2348,2349,0,
2349,0,2350,2,
2347,2350,2351,0,
2351,0,2352,2,
417,2289,2353,0,
2353,0,2354,2,
2118,2089,2355,0,
2355,0,2356,2,
2354,2356,2357,0,
2119,0,2358,2,
2301,2358,2359,0,
2359,0,2360,2,
2357,2360,2361,0,
2361,0,2362,2,
395,2289,2363,0,
2363,0,2364,2,
2106,2089,2365,0,
2365,0,2366,2,
2364,2366,2367,0,
2122,0,2368,2,
2301,2368,2369,0,
2369,0,2370,2,
2367,2370,2371,0,
2371,0,2372,2,
2190,0,2373,2,
2301,2373,2374,0,
2374,0,2375,2,
2289,2089,2376,1,
399,2376,2377,0,
2289,2377,2378,1,
2378,0,2379,2,
2375,2379,2380,0,
2380,0,2381,2,
1460,1514,2382,1,
1585,2382,2383,0,
1460,2383,2384,1,
1758,0,2385,2,
1651,2385,2386,0,
2386,0,2387,2,
2384,2387,2388,0,
1978,1633,2389,0,
2389,0,2390,2,
2008,1617,2391,1,
2008,1617,2392,0,
2391,2392,2393,1,
2390,2393,2394,0,
1511,1891,2395,0,
2395,0,2396,2,
2394,2396,2397,0,
2388,2397,2398,0,
2398,0,2399,2,
2399,2045,2400,1,
2093,2400,2401,0,
2401,0,2402,2,
2399,2211,2403,0,
2403,0,2404,2,
2402,2404,2405,0,
2405,0,2406,2,
2093,2044,2407,0,
2407,0,2408,2,
2211,2043,2409,0,
2409,0,2410,2,
2408,2410,2411,0,
2411,0,2412,2,
2093,2023,2413,0,
2413,0,2414,2,
2211,2022,2415,0,
2415,0,2416,2,
2414,2416,2417,0,
2417,0,2418,2,
2093,1670,2419,0,
2419,0,2420,2,
2211,1650,2421,0,
2421,0,2422,2,
2420,2422,2423,0,
2423,0,2424,2,
2093,2004,2425,0,
2425,0,2426,2,
2211,2003,2427,0,
2427,0,2428,2,
2426,2428,2429,0,
2429,0,2430,2,
2093,1985,2431,0,
2431,0,2432,2,
2211,1984,2433,0,
2433,0,2434,2,
2432,2434,2435,0,
2435,0,2436,2,
2093,1964,2437,0,
2437,0,2438,2,
2211,1963,2439,0,
2439,0,2440,2,
2438,2440,2441,0,
2441,0,2442,2,
2093,1944,2443,0,
2443,0,2444,2,
2211,1943,2445,0,
2445,0,2446,2,
2444,2446,2447,0,
2447,0,2448,2,
2093,1922,2449,0,
2449,0,2450,2,
2211,1921,2451,0,
2451,0,2452,2,
2450,2452,2453,0,
2453,0,2454,2,
2093,1898,2455,0,
2455,0,2456,2,
2211,1897,2457,0,
2457,0,2458,2,
2456,2458,2459,0,
2459,0,2460,2,
2093,1875,2461,0,
2461,0,2462,2,
2211,1874,2463,0,
2463,0,2464,2,
2462,2464,2465,0,
2465,0,2466,2,
2093,1851,2467,0,
2467,0,2468,2,
2211,1850,2469,0,
2469,0,2470,2,
2468,2470,2471,0,
2471,0,2472,2,
2093,1837,2473,0,
2473,0,2474,2,
2211,1836,2475,0,
2475,0,2476,2,
2474,2476,2477,0,
2477,0,2478,2,
2093,1823,2479,0,
2479,0,2480,2,
2211,1822,2481,0,
2481,0,2482,2,
2480,2482,2483,0,
2483,0,2484,2,
2093,2211,2485,1,
1669,2485,2486,0,
2093,2486,2487,1,
0,0,2488,1,
2488,2487,2489,1,
2488,2424,2490,1,
2488,2312,2491,1,
2488,2251,2492,1,
2488,2245,2493,1,
2488,2239,2494,1,
2488,2233,2495,1,
2488,2227,2496,1,
2488,2221,2497,1,
2488,2215,2498,1,
2488,2484,2499,1,
2488,2478,2500,1,
2488,2472,2501,1,
2488,2466,2502,1,
2488,2460,2503,1,
2488,2454,2504,1,
2488,2448,2505,1,
2488,2442,2506,1,
2488,2436,2507,1,
2488,2430,2508,1,
2488,2418,2509,1,
2488,2412,2510,1,
2488,2406,2511,1,
2488,2381,2512,1,
2488,2372,2513,1,
2488,2362,2514,1,
2488,2352,2515,1,
2488,2342,2516,1,
2488,2332,2517,1,
2488,2323,2518,1,
2488,2306,2519,1,
2488,2281,2520,1,
