// What the scripts need of the simulator, added to the generated wrapper.
%inline %{
extern "C" {
void simp_arm(unsigned long from, unsigned long to);
void simp_disarm();
unsigned long simp_allocs();
unsigned long simp_fired();
long simp_live();
void simp_fill(int a, int b);
}
%}
