import sys
sys.set_int_max_str_digits(0)
