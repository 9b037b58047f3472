import { mount } from './mount.mjs';
export const entry = `export { default as VsTable } from '@/components/vs-table/VsTable.vue';
export { useTable } from '@/components/vs-table/composables/table-composable';
export { compareUtil } from '@/utils';
export { h, createApp, reactive, nextTick, toRaw, ref } from 'vue';`;
/** mounts the real table; rows() reads the rendered body */
export async function table(M, props, slots) {
    const c = mount(M, M.VsTable, props, { slots });
    await M.nextTick();
    c.rows = () => [...c.el.querySelectorAll('tbody.vs-table-body tr.vs-table-body-row')].map((tr) => [...tr.querySelectorAll('td.vs-table-td')].filter((td) => td.id).map((td) => td.textContent.trim()));
    return c;
}
