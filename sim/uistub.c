/* Stand-ins for SDL and the operator panel widgets (all weak: a program that
   simulates one of them supplies its own). */
#define W(t, n) __attribute__((weak)) t n() { return (t)0; }
#define D(n) __attribute__((weak)) char n[64];
typedef void *P;
W(P, IMG_ReadXPMFromArray) W(P, SDL_CreateTextureFromSurface) W(P, SDL_DestroyTexture) W(P, SDL_FreeSurface)
W(int, SDL_QueryTexture) W(int, SDL_RenderCopy) W(int, SDL_SetTextureBlendMode) W(P, TTF_RenderText_Solid) W(int, TTF_SizeText)
__attribute__((weak)) P SDL_CreateThread() { static char t[8]; return t; }
W(int, SDL_WaitThread)
W(P, add_area) W(P, add_button) W(P, add_button_callback) W(P, add_checkbox) W(P, add_combo) W(P, add_indicator) W(P, add_label)
W(P, add_light) W(P, add_number) W(P, add_textinput) W(P, create_window) W(P, get_textbuffer)
W(P, model2415_draw) W(P, model2415_control) W(P, model2415_init)
W(int, get_option) W(int, get_integer) W(int, get_index) W(int, get_string)
W(P, setup_fp2030) W(P, setup_fp2050)
D(c_black) D(c_off) D(c_white) D(font10) D(font14)
__attribute__((weak)) unsigned long step_count;
