"""Sample inputs of the concrete runs that filter invariant candidates."""
S = {
 '<num::BigInt as num::Integer>::extended_gcd': [[12, 18], [-12, 18], [35, -14], [0, 5], [5, 0], [0, 0], [240, 46], [-17, -5]],
 '<&num::BigUint as num::traits::Pow<u32>>::pow': [[3, 5], [2, 8], [5, 1], [7, 0], [2, 12], [3, 7]],
 'factorial_fold_u': [[i] for i in range(0, 9)],
 'fibonacci_fold_u': [[i] for i in range(0, 12)],
 'fibonacci_fast_u': [[i] for i in range(0, 12)],
 'power_iu': [[3, 5], [-2, 7], [5, 0], [0, 3], [2, 10]],
 'chinese_remainder': [[[2, 3, 2], [3, 5, 7]], [[1, -4, 9, 2, 6], [5, 7, -9, 11, 4]], [[0, 0], [2, 3]], [[7], [9]], [[1, 2, 3], [4, 6, 5]], [[8, -3, 5, 1], [-3, 4, 25, 7]], [[], []], [[5, 4, 3, 2, 1, 0], [2, 3, 5, 7, 11, 13]]],
 'prime_sum_u128': [[n] for n in (1, 2, 3, 4, 5, 8, 9, 10, 12, 16, 24, 25, 26, 30)],
}
