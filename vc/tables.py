"""Reference values of OEIS (typed independently of /repo)."""
# OEIS A046731: sum of primes < 10^n;  A006880: number of primes < 10^n (independent copy)
A046731 = [0, 17, 1060, 76127, 5736396, 454396537, 37550402023, 3203324994356, 279209790387276, 24739512092254535, 2220822432581729238, 201467077743744681014,
 18435588552550705911377, 1699246443377779418889494, 157589260710736940541561021, 14692398516908006398225702366, 1376110854313351899159632866552,
 129408626276669278966252031311350, 12212914292949226570880576733896687, 1156251260549368082781614413945980126, 109778913483063648128485839045703833541,
 10449550362130704786220283253063405651965, 996973504763259668279213971353794878368213, 95320530117168404458544684912403185555509650,
 9131187511156941634384410084928380134453142199, 876268031750623105684911815303505535704119354853]
A006880 = [0, 4, 25, 168, 1229, 9592, 78498, 664579, 5761455, 50847534, 455052511, 4118054813, 37607912018, 346065536839, 3204941750802, 29844570422669,
 279238341033925, 2623557157654233, 24739954287740860, 234057667276344607, 2220819602560918840, 21127269486018731928, 201467286689315906290,
 1925320391606803968923, 18435599767349200867866, 176846309399143769411680, 1699246750872437141327603, 16352460426841680446427399]
